// AST fact exporter: parses a translation unit with the real compiler front end
// and writes, as JSON, every non-dependent function body that lives under one of
// the given source roots (template instantiations included), with resolved
// callees, resolved declarations and evaluated constants.  The Python rules in
// /verif/engine work on this output only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/OpenMPKinds.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {

struct Exporter {
  ASTContext &Ctx;
  SourceManager &SM;
  json::OStream &J;
  PrintingPolicy PP;
  std::map<const Decl *, int> DeclIds;
  std::map<std::string, int> TypeIds;
  std::vector<std::string> Types;
  std::vector<std::string> EnumTypes;
  std::map<std::string, int> FileIds;
  std::vector<std::string> Files;
  std::vector<const FunctionDecl *> Pending; // lambda operators
  std::set<const FunctionDecl *> Done;
  std::set<const VarDecl *> Globals;

  Exporter(ASTContext &C, json::OStream &J)
      : Ctx(C), SM(C.getSourceManager()), J(J), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int n = DeclIds.size() + 1;
    DeclIds[D] = n;
    return n;
  }
  int typeId(QualType T) {
    std::string s = T.isNull() ? std::string("?") : T.getCanonicalType().getAsString(PP);
    auto it = TypeIds.find(s);
    if (it != TypeIds.end()) return it->second;
    int n = Types.size();
    if (!T.isNull() && T.getNonReferenceType()->isEnumeralType()) EnumTypes.push_back(T.getNonReferenceType().getUnqualifiedType().getCanonicalType().getAsString(PP));
    Types.push_back(s);
    TypeIds[s] = n;
    return n;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    StringRef rp = F->getFileEntry().tryGetRealPathName();
    return rp.empty() ? F->getName().str() : rp.str();
  }
  bool inRoots(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.empty()) return false;
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int fileId(SourceLocation L) {
    std::string f = fileOf(L);
    auto it = FileIds.find(f);
    if (it != FileIds.end()) return it->second;
    int n = Files.size();
    Files.push_back(f);
    FileIds[f] = n;
    return n;
  }
  int line(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }

  static void qual(const DeclContext *DC, std::string &out) {
    if (!DC || DC->isTranslationUnit()) return;
    qual(DC->getParent(), out);
    if (auto *ND = dyn_cast<NamedDecl>(DC)) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC))
        if (NS->isInline()) return;
      std::string n = ND->getNameAsString();
      if (n.empty()) n = "(anon)";
      out += n + "::";
    }
  }
  static std::string qname(const NamedDecl *D) {
    std::string s;
    qual(D->getDeclContext(), s);
    return s + D->getNameAsString();
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(D, b)) return "decl" + std::to_string(declId(D));
    return std::string(b.str());
  }
  std::string fnKey(const FunctionDecl *F) { 
    std::string u = usr(F->getCanonicalDecl());
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) u = "lambda#" + std::to_string(declId(F)) + "#" + u;
    return u; }

  // ---------------------------------------------------------------- values
  void apvalue(const APValue &V, QualType T, int depth = 0) {
    if (depth > 6) { J.value(nullptr); return; }
    switch (V.getKind()) {
    case APValue::Int: {
      llvm::SmallString<40> s; V.getInt().toString(s, 10);
      if (V.getInt().isRepresentableByInt64() && V.getInt().getSignificantBits() <= 53) J.value(V.getInt().getExtValue());
      else J.value(std::string(s.str()));
      return; }
    case APValue::Float: J.value(V.getFloat().convertToDouble()); return;
    case APValue::Array: {
      J.arrayBegin();
      unsigned n = V.getArraySize(), m = V.getArrayInitializedElts();
      for (unsigned i = 0; i < n && i < 4096; i++)
        apvalue(i < m ? V.getArrayInitializedElt(i) : V.getArrayFiller(), QualType(), depth + 1);
      J.arrayEnd();
      return; }
    case APValue::Struct: {
      J.arrayBegin();
      for (unsigned i = 0; i < V.getStructNumFields(); i++) apvalue(V.getStructField(i), QualType(), depth + 1);
      J.arrayEnd();
      return; }
    default: J.value(nullptr);
    }
  }

  // ---------------------------------------------------------------- exprs
  void common(const Expr *E) {
    J.attribute("t", typeId(E->getType()));
    J.attribute("l", line(E->getExprLoc()));
  }
  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else if (auto *X = dyn_cast<GenericSelectionExpr>(E)) E = X->getResultExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral:
        case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
        case CK_NullToPointer: case CK_PointerToBoolean:
          return E;
        default: E = X->getSubExpr();
        }
      } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
        if (X->isElidable() && X->getNumArgs() == 1 && X->getConstructor()->isCopyOrMoveConstructor()) E = X->getArg(0);
        else return E;
      } else return E;
    }
  }
  void exprs(const char *name, llvm::ArrayRef<const Expr *> v) {
    J.attributeArray(name, [&] { for (auto *e : v) expr(e); });
  }
  template <class R> void exprRange(const char *name, R r) {
    J.attributeArray(name, [&] { for (auto *e : r) expr(e); });
  }
  void attrExpr(const char *name, const Expr *E) {
    J.attributeBegin(name);
    if (E) expr(E); else J.value(nullptr);
    J.attributeEnd();
  }
  void attrStmt(const char *name, const Stmt *S) {
    J.attributeBegin(name);
    if (S) stmt(S); else J.value(nullptr);
    J.attributeEnd();
  }
  void fnAttrs(const FunctionDecl *F) {
    J.attribute("fn", fnKey(F));
    J.attribute("qn", qname(F));
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      std::string s; llvm::raw_string_ostream os(s);
      bool first = true;
      for (auto &A : TA->asArray()) { if (!first) os << ", "; first = false; A.print(PP, os, true); }
      J.attribute("ta", os.str());
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) J.attribute("cm", 1);
      if (M->isStatic()) J.attribute("sm", 1);
    }
  }
  void declRef(const ValueDecl *D) {
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      J.attribute("dk", "fn"); fnAttrs(F); J.attribute("n", F->getNameAsString());
      // signature type keeps instantiation
      return;
    }
    J.attribute("d", declId(D));
    J.attribute("n", D->getNameAsString());
    const char *dk = "other";
    if (isa<ParmVarDecl>(D)) dk = "param";
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isStaticLocal()) dk = "static";
      else if (V->isLocalVarDecl()) dk = "local";
      else { dk = "global"; Globals.insert(V); J.attribute("qn", qname(V)); }
      if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", 1);
    } else if (isa<EnumConstantDecl>(D)) { dk = "enum"; J.attribute("qn", qname(D)); }
    else if (isa<BindingDecl>(D)) dk = "binding";
    else if (isa<FieldDecl>(D)) dk = "field";
    J.attribute("dk", dk);
    if (auto *BD = dyn_cast<BindingDecl>(D)) (void)BD;
  }
  bool tryConst(const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return false;
    QualType T = E->getType();
    if (T.isNull()) return false;
    if (isa<StringLiteral>(E)) return false;
    if (T->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (!E->isPRValue() && !isa<DeclRefExpr>(E) && !isa<MemberExpr>(E)) return false;
      if (!E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) return false;
      if (R.HasSideEffects) return false;
      J.objectBegin();
      J.attribute("k", "int");
      auto &I = R.Val.getInt();
      llvm::SmallString<40> s; I.toString(s, 10);
      if (I.isRepresentableByInt64() && I.getSignificantBits() <= 53) J.attribute("v", I.getExtValue());
      else { J.attribute("v", std::string(s.str())); }
      const Expr *S = E;
      while (auto *IC = dyn_cast<CastExpr>(S)) S = strip(IC->getSubExpr());
      if (auto *DR = dyn_cast<DeclRefExpr>(S)) {
        J.attribute("n", DR->getDecl()->getNameAsString());
        if (auto *V = dyn_cast<VarDecl>(DR->getDecl())) if (!V->isLocalVarDecl() && !isa<ParmVarDecl>(V)) { Globals.insert(V); J.attribute("qn", qname(V)); }
        if (isa<EnumConstantDecl>(DR->getDecl())) J.attribute("qn", qname(DR->getDecl()));
      }
      common(E);
      J.objectEnd();
      return true;
    }
    if (T->isRealFloatingType() && (E->isPRValue() || isa<DeclRefExpr>(E))) {
      llvm::APFloat F(0.0);
      if (!E->EvaluateAsFloat(F, Ctx, Expr::SE_NoSideEffects)) return false;
      bool li; llvm::APFloat G = F; G.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
      J.objectBegin();
      J.attribute("k", "flt");
      double d = G.convertToDouble();
      if (G.isFinite()) J.attribute("v", d);
      else J.attribute("v", G.isNaN() ? "nan" : (G.isNegative() ? "-inf" : "inf"));
      const Expr *S = E;
      while (auto *IC = dyn_cast<CastExpr>(S)) S = strip(IC->getSubExpr());
      if (auto *DR = dyn_cast<DeclRefExpr>(S)) J.attribute("n", DR->getDecl()->getNameAsString());
      common(E);
      J.objectEnd();
      return true;
    }
    return false;
  }
  void expr(const Expr *E0) {
    if (!E0) { J.value(nullptr); return; }
    const Expr *E = strip(E0);
    if (tryConst(E)) return;
    J.objectBegin();
    exprBody(E);
    J.objectEnd();
  }
  void exprBody(const Expr *E) {
    common(E);
    if (auto *X = dyn_cast<CastExpr>(E)) {
      J.attribute("k", "cast");
      J.attribute("ck", X->getCastKindName());
      if (isa<ExplicitCastExpr>(X)) J.attribute("x", 1);
      if (isa<CXXConstCastExpr>(X)) J.attribute("cc", 1);
      if (isa<CStyleCastExpr>(X)) J.attribute("cs", 1);
      if (isa<CXXReinterpretCastExpr>(X)) J.attribute("rc", 1);
      attrExpr("e", X->getSubExpr());
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      J.attribute("k", "ref");
      declRef(X->getDecl());
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (isa<VarDecl>(X->getMemberDecl())) { J.attribute("k", "ref"); declRef(X->getMemberDecl()); }
      else {
        J.attribute("k", "mem");
        J.attribute("f", X->getMemberDecl()->getNameAsString());
        J.attribute("qn", qname(X->getMemberDecl()));
        if (X->isArrow()) J.attribute("arrow", 1);
        attrExpr("b", X->getBase());
      }
    } else if (isa<CXXThisExpr>(E)) {
      J.attribute("k", "this");
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      J.attribute("k", "call");
      J.attribute("op", getOperatorSpelling(X->getOperator()));
      callee(X);
      auto *F = X->getDirectCallee();
      bool method = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
      unsigned s = 0;
      if (method && X->getNumArgs() > 0) { attrExpr("o", X->getArg(0)); s = 1; }
      J.attributeArray("a", [&] { for (unsigned i = s; i < X->getNumArgs(); i++) expr(X->getArg(i)); });
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      J.attribute("k", "call");
      callee(X);
      attrExpr("o", X->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()))) {
        if (ME->isArrow()) J.attribute("arrow", 1);
      }
      J.attributeArray("a", [&] { for (auto *a : X->arguments()) expr(a); });
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      J.attribute("k", "call");
      callee(X);
      J.attributeArray("a", [&] { for (auto *a : X->arguments()) expr(a); });
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      J.attribute("k", "ctor");
      if (X->requiresZeroInitialization()) J.attribute("zi", 1);
      J.attribute("cls", qname(X->getConstructor()->getParent()));
      fnAttrs(X->getConstructor());
      J.attributeArray("pt", [&] { for (auto *p : X->getConstructor()->parameters()) J.value(typeId(p->getType())); });
      if (X->getConstructor()->isCopyOrMoveConstructor()) J.attribute("copy", X->getConstructor()->isMoveConstructor() ? 2 : 1);
      if (X->getConstructor()->isDefaultConstructor()) J.attribute("dflt", 1);
      J.attributeArray("a", [&] { for (auto *a : X->arguments()) expr(a); });
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      J.attribute("k", "assign");
      J.attribute("op", X->getOpcodeStr());
      J.attribute("ct", typeId(X->getComputationResultType()));
      attrExpr("a", X->getLHS());
      attrExpr("b", X->getRHS());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      J.attribute("k", X->isAssignmentOp() ? "assign" : "bin");
      J.attribute("op", X->getOpcodeStr());
      attrExpr("a", X->getLHS());
      attrExpr("b", X->getRHS());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      J.attribute("k", "un");
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      J.attribute("op", op);
      attrExpr("e", X->getSubExpr());
    } else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      J.attribute("k", "cond");
      attrExpr("c", X->getCond());
      attrExpr("a", X->getTrueExpr());
      attrExpr("b", X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      J.attribute("k", "sub");
      attrExpr("b", X->getBase());
      attrExpr("i", X->getIdx());
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      J.attribute("k", "lambda");
      J.attribute("fn", fnKey(X->getCallOperator()));
      J.attributeArray("caps", [&] {
        for (auto &c : X->captures()) {
          J.objectBegin();
          if (c.capturesThis()) J.attribute("this", 1);
          else if (c.capturesVariable()) {
            J.attribute("d", declId(c.getCapturedVar()));
            J.attribute("n", c.getCapturedVar()->getNameAsString());
            J.attribute("ref", c.getCaptureKind() == LCK_ByRef ? 1 : 0);
          }
          J.objectEnd();
        }
      });
      const CXXMethodDecl *M = X->getCallOperator();
      Pending.push_back(M);
      if (X->isGenericLambda())
        if (auto *FT = M->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations()) Pending.push_back(S);
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      J.attribute("k", "init");
      J.attributeArray("a", [&] { for (auto *a : X->inits()) expr(a); });
    } else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      J.attribute("k", "init");
      if (auto *I = dyn_cast<InitListExpr>(strip(X->getSubExpr())))
        J.attributeArray("a", [&] { for (auto *a : I->inits()) expr(a); });
      else J.attributeArray("a", [&] { expr(X->getSubExpr()); });
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J.attribute("k", "new");
      J.attribute("arr", X->isArray() ? 1 : 0);
      if (X->isArray() && X->getArraySize()) attrExpr("n", *X->getArraySize());
      attrExpr("init", X->getInitializer());
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      J.attribute("k", "delete");
      J.attribute("arr", X->isArrayForm() ? 1 : 0);
      attrExpr("e", X->getArgument());
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      J.attribute("k", "throw");
      attrExpr("e", X->getSubExpr());
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      J.attribute("k", "str");
      if (X->getCharByteWidth() == 1) {
        std::string b = X->getBytes().str();
        J.attribute("v", json::fixUTF8(b));
      }
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      J.attribute("k", "null");
    } else if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) {
      (void)X;
      J.attribute("k", "zero");
    } else if (isa<ImplicitValueInitExpr>(E)) {
      J.attribute("k", "zero");
    } else if (auto *X = dyn_cast<CXXTemporaryObjectExpr>(E)) {
      (void)X;
      J.attribute("k", "other");
    } else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      J.attribute("k", "typeid");
      J.attribute("of", typeId(X->isTypeOperand() ? X->getTypeOperandSourceInfo()->getType() : X->getExprOperand()->getType()));
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J.attribute("k", "other"); J.attribute("cls", "sizeof"); (void)X;
    } else {
      J.attribute("k", "other");
      J.attribute("cls", E->getStmtClassName());
      J.attributeArray("ch", [&] {
        for (auto *c : E->children()) if (c) if (auto *ce = dyn_cast<Expr>(c)) expr(ce);
      });
    }
  }
  void callee(const CallExpr *X) {
    if (auto *F = X->getDirectCallee()) {
      fnAttrs(F);
      J.attributeArray("pt", [&] { for (auto *p : F->parameters()) J.value(typeId(p->getType())); });
      if (F->isVariadic()) J.attribute("variadic", 1);
      J.attribute("rt", typeId(F->getReturnType()));
    } else { attrExpr("cal", X->getCallee()); }
  }

  // ---------------------------------------------------------------- stmts
  void varDecl(const VarDecl *V) {
    J.objectBegin();
    J.attribute("d", declId(V));
    J.attribute("n", V->getNameAsString());
    J.attribute("t", typeId(V->getType()));
    J.attribute("l", line(V->getLocation()));
    if (V->getType().isConstQualified()) J.attribute("const", 1);
    if (V->getType()->isReferenceType()) J.attribute("refty", 1);
    if (V->isStaticLocal()) J.attribute("static", 1);
    if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", 1);
    if (V->hasInit()) attrExpr("init", V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V))
      J.attributeArray("bind", [&] {
        for (auto *b : DD->bindings()) { J.objectBegin(); J.attribute("d", declId(b)); J.attribute("n", b->getNameAsString()); J.objectEnd(); }
      });
    J.objectEnd();
  }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) {
      J.objectBegin();
      J.attribute("k", "expr");
      J.attribute("l", line(E->getExprLoc()));
      attrExpr("e", E);
      J.objectEnd();
      return;
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) { stmt(A->getSubStmt()); return; }
    if (auto *C = dyn_cast<CapturedStmt>(S)) { stmt(C->getCapturedStmt()); return; }
    J.objectBegin();
    J.attribute("l", line(S->getBeginLoc()));
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      J.attribute("k", "block");
      J.attributeArray("s", [&] { for (auto *c : X->body()) stmt(c); });
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      J.attribute("k", "decl");
      J.attributeArray("v", [&] {
        for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) varDecl(V);
      });
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      J.attribute("k", "if");
      if (X->isConstexpr()) J.attribute("constexpr", 1);
      if (X->getInit()) attrStmt("init", X->getInit());
      if (X->getConditionVariableDeclStmt()) attrStmt("cv", X->getConditionVariableDeclStmt());
      attrExpr("c", X->getCond());
      attrStmt("a", X->getThen());
      attrStmt("b", X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      J.attribute("k", "for");
      attrStmt("init", X->getInit());
      attrExpr("c", X->getCond());
      attrExpr("inc", X->getInc());
      attrStmt("b", X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      J.attribute("k", "while");
      if (X->getConditionVariableDeclStmt()) attrStmt("cv", X->getConditionVariableDeclStmt());
      attrExpr("c", X->getCond());
      attrStmt("b", X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      J.attribute("k", "do");
      attrExpr("c", X->getCond());
      attrStmt("b", X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      J.attribute("k", "rfor");
      attrExpr("r", X->getRangeInit());
      J.attributeBegin("var"); varDecl(X->getLoopVariable()); J.attributeEnd();
      attrStmt("b", X->getBody());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      J.attribute("k", "switch");
      if (X->getInit()) attrStmt("init", X->getInit());
      attrExpr("c", X->getCond());
      attrStmt("b", X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      J.attribute("k", "case");
      attrExpr("v", X->getLHS());
      attrStmt("s", X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      J.attribute("k", "default");
      attrStmt("s", X->getSubStmt());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      J.attribute("k", "return");
      attrExpr("e", X->getRetValue());
    } else if (isa<BreakStmt>(S)) J.attribute("k", "break");
    else if (isa<ContinueStmt>(S)) J.attribute("k", "continue");
    else if (isa<NullStmt>(S)) J.attribute("k", "null");
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      J.attribute("k", "try");
      attrStmt("b", X->getTryBlock());
      J.attributeArray("h", [&] {
        for (unsigned i = 0; i < X->getNumHandlers(); i++) {
          auto *H = X->getHandler(i);
          J.objectBegin();
          J.attribute("t", H->getExceptionDecl() ? Types[typeId(H->getCaughtType())] : std::string("..."));
          if (H->getExceptionDecl()) { J.attribute("d", declId(H->getExceptionDecl())); }
          attrStmt("b", H->getHandlerBlock());
          J.objectEnd();
        }
      });
    } else if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      J.attribute("k", "omp");
      J.attribute("dir", llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str());
      J.attributeArray("cl", [&] {
        for (auto *c : X->clauses()) {
          if (c->isImplicit()) continue;
          J.objectBegin();
          J.attribute("n", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str());
          std::vector<const Expr *> vs;
          auto grab = [&](auto *cc) { for (auto *e : cc->varlists()) vs.push_back(e); };
          if (auto *cc = dyn_cast<OMPPrivateClause>(c)) grab(cc);
          else if (auto *cc = dyn_cast<OMPFirstprivateClause>(c)) grab(cc);
          else if (auto *cc = dyn_cast<OMPLastprivateClause>(c)) grab(cc);
          else if (auto *cc = dyn_cast<OMPSharedClause>(c)) grab(cc);
          else if (auto *cc = dyn_cast<OMPReductionClause>(c)) { grab(cc); J.attribute("op", cc->getNameInfo().getAsString()); }
          else if (auto *cc = dyn_cast<OMPLinearClause>(c)) grab(cc);
          else if (auto *cc = dyn_cast<OMPCopyprivateClause>(c)) grab(cc);
          else if (auto *cc = dyn_cast<OMPCollapseClause>(c)) attrExpr("v", cc->getNumForLoops());
          else if (auto *cc = dyn_cast<OMPDefaultClause>(c)) J.attribute("v", (int)cc->getDefaultKind());
          else if (auto *cc = dyn_cast<OMPIfClause>(c)) attrExpr("v", cc->getCondition());
          else if (auto *cc = dyn_cast<OMPScheduleClause>(c)) J.attribute("v", getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_schedule, cc->getScheduleKind()));
          J.attributeArray("vars", [&] {
            for (auto *e : vs) {
              auto *s = strip(e);
              if (auto *dr = dyn_cast<DeclRefExpr>(s)) { J.value(declId(dr->getDecl())); }
              else if (auto *me = dyn_cast<MemberExpr>(s)) J.value(me->getMemberDecl()->getNameAsString());
            }
          });
          J.objectEnd();
        }
      });
      if (auto *CD = dyn_cast<OMPCriticalDirective>(X)) J.attribute("name", CD->getDirectiveName().getAsString());
      const Stmt *B = nullptr;
      if (X->hasAssociatedStmt()) {
        B = X->getAssociatedStmt();
        while (auto *CS = dyn_cast_or_null<CapturedStmt>(B)) B = CS->getCapturedStmt();
      }
      attrStmt("b", B);
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      J.attribute("k", "label"); J.attribute("n", X->getName());
      attrStmt("s", X->getSubStmt());
    } else if (auto *X = dyn_cast<GotoStmt>(S)) {
      J.attribute("k", "goto"); J.attribute("n", X->getLabel()->getNameAsString());
    } else {
      J.attribute("k", "other");
      J.attribute("cls", S->getStmtClassName());
      J.attributeArray("ch", [&] { for (auto *c : S->children()) if (c) stmt(c); });
    }
    J.objectEnd();
  }

  // ---------------------------------------------------------------- functions
  void function(const FunctionDecl *F0) {
    const FunctionDecl *F = nullptr;
    if (!F0->hasBody(F)) {
      if (F0->isDefaulted() || F0->isDeleted()) return;
      return;
    }
    if (F->isDependentContext() || F->isTemplated()) return;
    if (!Done.insert(F).second) return;
    if (!F->getBody()) return;
    J.objectBegin();
    fnAttrs(F);
    J.attribute("n", F->getNameAsString());
    J.attribute("file", fileId(F->getLocation()));
    J.attribute("line", line(F->getLocation()));
    J.attribute("end", line(F->getEndLoc()));
    J.attribute("ret", typeId(F->getReturnType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", qname(M->getParent()));
      J.attribute("clst", typeId(Ctx.getRecordType(M->getParent())));
      if (M->getParent()->isLambda()) J.attribute("lam", 1);
      J.attribute("acc", (int)M->getAccess());
    }
    if (isa<CXXConstructorDecl>(F)) J.attribute("isctor", 1);
    if (isa<CXXDestructorDecl>(F)) J.attribute("isdtor", 1);
    if (F->isDefaulted()) J.attribute("defaulted", 1);
    if (auto *PT = F->getPrimaryTemplate()) { (void)PT; J.attribute("inst", 1); }
    J.attributeArray("p", [&] {
      for (auto *p : F->parameters()) {
        J.objectBegin();
        J.attribute("d", declId(p));
        J.attribute("n", p->getNameAsString());
        J.attribute("t", typeId(p->getType()));
        J.objectEnd();
      }
    });
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      if (C->isCopyOrMoveConstructor()) J.attribute("copyctor", C->isMoveConstructor() ? 2 : 1);
      J.attributeArray("inits", [&] {
        for (auto *I : C->inits()) {
          J.objectBegin();
          if (I->isAnyMemberInitializer()) J.attribute("f", I->getAnyMember()->getNameAsString());
          else if (I->isDelegatingInitializer()) J.attribute("deleg", 1);
          else if (I->isBaseInitializer()) J.attribute("base", QualType(I->getBaseClass(), 0).getCanonicalType().getAsString(PP));
          if (I->isWritten()) J.attribute("w", 1);
          attrExpr("e", I->getInit());
          J.objectEnd();
        }
      });
    }
    attrStmt("body", F->getBody());
    J.objectEnd();
  }

  void record(const CXXRecordDecl *R) {
    J.objectBegin();
    J.attribute("qn", qname(R));
    J.attribute("t", typeId(Ctx.getRecordType(R)));
    J.attribute("file", fileId(R->getLocation()));
    J.attribute("line", line(R->getLocation()));
    J.attribute("agg", R->isAggregate() ? 1 : 0);
    if (R->isUnion()) J.attribute("union", 1);
    J.attribute("lam", R->isLambda() ? 1 : 0);
    J.attributeArray("bases", [&] { for (auto &b : R->bases()) J.value(typeId(b.getType())); });
    J.attributeArray("fields", [&] {
      for (auto *f : R->fields()) {
        J.objectBegin();
        J.attribute("n", f->getNameAsString());
        J.attribute("t", typeId(f->getType()));
        J.attribute("l", line(f->getLocation()));
        J.attribute("acc", (int)f->getAccess());
        QualType T = f->getType().getCanonicalType();
        J.attribute("scalar", (T->isScalarType() && !T->isReferenceType()) ? 1 : 0);
        if (T->isConstantArrayType()) { J.attribute("carr", 1); J.attribute("escalar", Ctx.getBaseElementType(T)->isScalarType() ? 1 : 0); }
        if (auto *RD = T->getAsCXXRecordDecl()) { J.attribute("rec", qname(RD)); }
        J.attribute("init", f->hasInClassInitializer() ? 1 : 0);
        if (f->hasInClassInitializer() && f->getInClassInitializer()) attrExpr("ie", f->getInClassInitializer());
        J.objectEnd();
      }
    });
    J.attributeArray("ctors", [&] {
      for (auto *c : R->ctors()) {
        J.objectBegin();
        J.attribute("fn", fnKey(c));
        J.attribute("l", line(c->getLocation()));
        J.attribute("user", c->isUserProvided() ? 1 : 0);
        J.attribute("defaulted", c->isDefaulted() ? 1 : 0);
        J.attribute("deleted", c->isDeleted() ? 1 : 0);
        J.attribute("dflt", c->isDefaultConstructor() ? 1 : 0);
        J.attribute("copy", c->isCopyConstructor() ? 1 : 0);
        J.attribute("move", c->isMoveConstructor() ? 1 : 0);
        J.attribute("np", (int)c->getNumParams());
        J.objectEnd();
      }
    });
    J.attribute("ndflt", R->needsImplicitDefaultConstructor() ? 1 : 0);
    J.objectEnd();
  }
};

struct Collect : RecursiveASTVisitor<Collect> {
  Exporter &X;
  std::vector<const FunctionDecl *> Fns;
  std::vector<const CXXRecordDecl *> Recs;
  std::vector<const VarDecl *> Vars;
  std::vector<const FunctionDecl *> Templates;
  explicit Collect(Exporter &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() || F->hasBody())
      if (X.inRoots(F->getLocation())) {
        if (!F->isDependentContext()) Fns.push_back(F);
        else if (F->isThisDeclarationADefinition()) Templates.push_back(F);
      }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && X.inRoots(R->getLocation())) Recs.push_back(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && !V->getDeclContext()->isDependentContext() && X.inRoots(V->getLocation())) Vars.push_back(V);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &Ctx) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    json::OStream J(OS);
    Exporter X(Ctx, J);
    Collect C(X);
    C.TraverseDecl(Ctx.getTranslationUnitDecl());
    J.objectBegin();
    J.attribute("errors", (int)Ctx.getDiagnostics().hasErrorOccurred());
    J.attributeArray("functions", [&] {
      for (auto *f : C.Fns) X.function(f);
      while (!X.Pending.empty()) {
        auto *f = X.Pending.back();
        X.Pending.pop_back();
        X.function(f);
      }
    });
    J.attributeArray("records", [&] {
      std::set<const CXXRecordDecl *> seen;
      for (auto *r : C.Recs) if (seen.insert(r).second) X.record(r);
    });
    J.attributeArray("templates", [&] {
      for (auto *f : C.Templates) {
        J.objectBegin();
        J.attribute("qn", Exporter::qname(f));
        J.attribute("file", X.fileId(f->getLocation()));
        J.attribute("line", X.line(f->getLocation()));
        J.attribute("end", X.line(f->getEndLoc()));
        J.objectEnd();
      }
    });
    for (auto *v : C.Vars) X.Globals.insert(v);
    J.attributeArray("globals", [&] {
      // iterate to a stable order by id
      std::vector<std::pair<int, const VarDecl *>> vs;
      for (auto *v : X.Globals) vs.push_back({X.declId(v), v});
      std::sort(vs.begin(), vs.end());
      for (auto &p : vs) {
        const VarDecl *V = p.second;
        if (V->getDeclContext()->isDependentContext()) continue;
        J.objectBegin();
        J.attribute("d", p.first);
        J.attribute("qn", Exporter::qname(V));
        J.attribute("n", V->getNameAsString());
        J.attribute("t", X.typeId(V->getType()));
        J.attribute("const", V->getType().isConstQualified() || V->isConstexpr() ? 1 : 0);
        J.attribute("constexpr", V->isConstexpr() ? 1 : 0);
        J.attribute("tls", V->getTLSKind() != VarDecl::TLS_None ? 1 : 0);
        J.attribute("inroot", X.inRoots(V->getLocation()) ? 1 : 0);
        J.attribute("file", X.fileId(V->getLocation()));
        J.attribute("line", X.line(V->getLocation()));
        const VarDecl *D = nullptr;
        if (V->getAnyInitializer(D) && D && !D->isInvalidDecl()) {
          const Expr *I = D->getInit();
          if (I && !I->isValueDependent() && X.inRoots(D->getLocation())) {
            Expr::EvalResult R;
            llvm::SmallVector<PartialDiagnosticAt, 4> notes;
            if (I->EvaluateAsInitializer(R.Val, Ctx, D, notes, true) || (D->getType().isConstQualified() && I->EvaluateAsRValue(R, Ctx))) {
              J.attributeBegin("val");
              X.apvalue(R.Val, V->getType());
              J.attributeEnd();
            }
            J.attributeBegin("ie"); X.expr(I); J.attributeEnd();
          }
        }
        J.objectEnd();
      }
    });
    // lambdas inside global initialisers
    J.attributeArray("functions2", [&] {
      while (!X.Pending.empty()) {
        auto *f = X.Pending.back();
        X.Pending.pop_back();
        X.function(f);
      }
    });
    J.attributeArray("types", [&] { for (auto &t : X.Types) J.value(t); });
    J.attributeArray("enums", [&] { for (auto &t : X.EnumTypes) J.value(t); });
    J.attributeArray("files", [&] { for (auto &t : X.Files) J.value(t); });
    J.objectEnd();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

// usage: exporter OUT.json SRC root1 root2 ... -- compiler args
int main(int argc, char **argv) {
  OutPath = argv[1];
  std::string src = argv[2];
  int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; i++) Roots.push_back(argv[i]);
  std::vector<std::string> args;
  for (i++; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool Tool(DB, {src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
