// Fact extractor: emits, for every function with a body whose definition lies under a given
// root, the resolved AST (expression trees with callees resolved), the clang CFG, and class /
// enum / global-variable facts, one JSON object per line.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace clang;

static std::string Root;      // e.g. /repo/Merlin++
static std::string OutPath;

static std::string esc(llvm::StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    switch (c) {
    case '"': r += "\\\""; break;
    case '\\': r += "\\\\"; break;
    case '\n': r += "\\n"; break;
    case '\t': r += "\\t"; break;
    case '\r': r += "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
  }
  return r + "\"";
}

static std::string usr(const Decl *D) {
  llvm::SmallString<256> b;
  if (index::generateUSRForDecl(D, b)) return "";
  return std::string(b.str());
}

struct Emitter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::ofstream &out;
  std::set<std::string> done;
  Emitter(ASTContext &c, std::ofstream &o) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), out(o) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true; PP.AnonymousTagLocations = false;
    PP.PrintCanonicalTypes = true; PP.TerseOutput = true; PP.SuppressInlineNamespace = true;
  }

  std::string file(SourceLocation L) {
    SourceLocation E = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(E, false);
    return P.isValid() ? std::string(P.getFilename()) : "";
  }
  unsigned line(SourceLocation L) { return L.isValid() ? SM.getExpansionLineNumber(L) : 0; }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = file(L);
    return f.compare(0, Root.size(), Root) == 0;
  }
  std::string ty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }
  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream o(s);
    D->getNameForDiagnostic(o, PP, true); o.flush(); return s;
  }
  std::string fkey(const FunctionDecl *F) { // key of a function
    if (!F) return "";
    std::string u = usr(F);
    // distinct specialisations / instantiated members: USR distinguishes by template args
    return u;
  }

  // ---------- statements of one function
  struct FnCtx {
    std::map<const Stmt *, int> ids;
    std::vector<std::string> nodes;
    std::map<const ValueDecl *, int> vars;
    std::vector<std::string> varinfo;
    std::vector<const CXXMethodDecl *> lambdas;
  };

  static const Stmt *skip(const Stmt *S, bool &r, std::string *ck = nullptr) {
    for (;;) {
      if (!S) return S;
      if (auto *E = dyn_cast<ParenExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
        if (E->getCastKind() == CK_LValueToRValue) r = true;
        if (ck) {
          auto k = E->getCastKind();
          if (k == CK_FloatingToIntegral || k == CK_IntegralToFloating || k == CK_DerivedToBase || k == CK_UncheckedDerivedToBase ||
              k == CK_IntegralCast || k == CK_FloatingToBoolean || k == CK_IntegralToBoolean || k == CK_PointerToBoolean || k == CK_NullToPointer || k == CK_ArrayToPointerDecay)
            *ck = E->getCastKindName();
        }
        S = E->getSubExpr(); continue;
      }
      if (auto *E = dyn_cast<FullExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) { S = E->getReplacement(); continue; }
      if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) { S = E->getExpr(); continue; }
      if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { S = E->getExpr(); continue; }
      if (auto *E = dyn_cast<OpaqueValueExpr>(S)) { if (!E->getSourceExpr()) return S; S = E->getSourceExpr(); continue; }
      if (auto *E = dyn_cast<ExprWithCleanups>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<CXXStdInitializerListExpr>(S)) { S = E->getSubExpr(); continue; }
      return S;
    }
  }

  int var(FnCtx &X, const ValueDecl *D) {
    auto it = X.vars.find(D);
    if (it != X.vars.end()) return it->second;
    int id = (int)X.varinfo.size();
    X.vars[D] = id;
    std::string s = "[" + esc(D->getNameAsString()) + "," + esc(ty(D->getType())) + ",";
    const char *k = "local";
    if (auto *P = dyn_cast<ParmVarDecl>(D)) { (void)P; k = "param"; }
    else if (auto *V = dyn_cast<VarDecl>(D)) { if (V->isStaticLocal()) k = "static"; }
    s += esc(k) + "," + std::to_string(line(D->getLocation())) + "]";
    X.varinfo.push_back(s);
    return id;
  }

  int stmt(FnCtx &X, const Stmt *S0) {
    if (!S0) return -1;
    bool r = false; std::string ck;
    const Stmt *S = skip(S0, r, &ck);
    if (!S) return -1;
    auto it = X.ids.find(S);
    if (it != X.ids.end()) { X.ids[S0] = it->second; return it->second; }
    int id = (int)X.nodes.size();
    X.nodes.emplace_back();
    X.ids[S] = id; X.ids[S0] = id;
    std::vector<int> ch;
    std::string a; // attributes ,"k":v
    std::string kind = S->getStmtClassName();
    auto add = [&](const Stmt *c) { ch.push_back(stmt(X, c)); };
    auto attr = [&](const char *k, const std::string &v) { a += std::string(",\"") + k + "\":" + v; };
    bool generic = true;
    if (auto *E = dyn_cast<Expr>(S)) { attr("t", esc(ty(E->getType()))); if (E->isLValue()) attr("lv", "1"); }
    if (r) attr("r", "1");
    if (!ck.empty()) attr("ck", esc(ck));

    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      generic = false; kind = "Ref";
      const ValueDecl *D = E->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { attr("f", esc(fkey(F))); attr("n", esc(qn(F))); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { attr("en", esc(qn(EC))); attr("v", llvm::toString(EC->getInitVal(), 10)); }
      else if (auto *V = dyn_cast<VarDecl>(D); V && !V->isLocalVarDeclOrParm()) { attr("g", esc(usr(V))); attr("n", esc(qn(V))); }
      else if (auto *V = dyn_cast<BindingDecl>(D)) { attr("n", esc(V->getNameAsString())); }
      else { attr("v", std::to_string(var(X, D))); attr("n", esc(D->getNameAsString())); if (E->refersToEnclosingVariableOrCapture()) attr("cap", "1"); }
    } else if (auto *E = dyn_cast<MemberExpr>(S)) {
      generic = false; kind = "Member";
      const ValueDecl *D = E->getMemberDecl();
      attr("m", esc(qn(D))); attr("n", esc(D->getNameAsString()));
      if (E->isArrow()) attr("arrow", "1");
      if (auto *F = dyn_cast<FunctionDecl>(D)) attr("f", esc(fkey(F)));
      else if (auto *FD = dyn_cast<FieldDecl>(D)) { attr("fld", esc(usr(FD))); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { attr("g", esc(usr(V))); }
      add(E->getBase());
    } else if (auto *E = dyn_cast<CXXThisExpr>(S)) {
      generic = false; kind = "This"; (void)E;
    } else if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      generic = false; kind = "Call";
      attr("op", esc(getOperatorSpelling(E->getOperator())));
      if (auto *F = E->getDirectCallee()) { callee(F, a); if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) attr("obj", "1");
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isVirtual()) attr("virt", "1"); }
      else add(E->getCallee());
      for (auto *A : E->arguments()) add(A);
    } else if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      generic = false; kind = "Call";
      const CXXMethodDecl *M = E->getMethodDecl();
      if (M) {
        callee(M, a); attr("obj", "1");
        bool r2 = false; const Stmt *cal = skip(E->getCallee(), r2);
        if (auto *ME = dyn_cast<MemberExpr>(cal)) { if (M->isVirtual() && !ME->hasQualifier()) attr("virt", "1"); if (ME->isArrow()) attr("arrow", "1"); }
        add(E->getImplicitObjectArgument());
      } else { attr("indirect", "1"); add(E->getCallee()); }
      for (auto *A : E->arguments()) add(A);
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      generic = false; kind = "Call";
      if (auto *F = E->getDirectCallee()) callee(F, a);
      else { attr("indirect", "1"); add(E->getCallee()); }
      for (auto *A : E->arguments()) add(A);
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      generic = false; kind = "Construct";
      callee(E->getConstructor(), a);
      if (E->isElidable()) attr("elid", "1");
      if (E->requiresZeroInitialization()) attr("zero", "1");
      if (E->getConstructor()->isCopyConstructor()) attr("copy", "1");
      if (E->getConstructor()->isMoveConstructor()) attr("move", "1");
      for (auto *A : E->arguments()) add(A);
    } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      generic = false; kind = "New";
      attr("nt", esc(ty(E->getAllocatedType())));
      if (E->isArray()) attr("arr", "1");
      if (auto *I = E->getInitializer()) { attr("init", "1"); add(I); }
      if (E->isArray() && E->getArraySize()) { attr("hassize","1"); add(*E->getArraySize()); }
      for (unsigned i = 0; i < E->getNumPlacementArgs(); i++) { attr("placement","1"); add(E->getPlacementArg(i)); }
    } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      generic = false; kind = "Delete";
      if (E->isArrayForm()) attr("arr", "1");
      attr("dt", esc(ty(E->getDestroyedType())));
      add(E->getArgument());
    } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
      generic = false; kind = isa<CompoundAssignOperator>(E) ? "CompoundAssign" : "Binary";
      attr("op", esc(E->getOpcodeStr()));
      add(E->getLHS()); add(E->getRHS());
    } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
      generic = false; kind = "Unary";
      attr("op", esc((E->isPostfix() ? "post" : "") + std::string(UnaryOperator::getOpcodeStr(E->getOpcode()))));
      add(E->getSubExpr());
    } else if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      generic = false; kind = "Int"; llvm::SmallString<32> b; E->getValue().toString(b, 10, E->getType()->isSignedIntegerType()); attr("v", esc(b));
    } else if (auto *E = dyn_cast<FloatingLiteral>(S)) {
      generic = false; kind = "Float"; char b[64]; snprintf(b, 64, "%.17g", E->getValueAsApproximateDouble()); attr("v", esc(b));
    } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      generic = false; kind = "Bool"; attr("v", E->getValue() ? "1" : "0");
    } else if (auto *E = dyn_cast<CharacterLiteral>(S)) {
      generic = false; kind = "Char"; attr("v", std::to_string(E->getValue()));
    } else if (auto *E = dyn_cast<clang::StringLiteral>(S)) {
      generic = false; kind = "Str"; attr("v", E->isOrdinary() ? esc(E->getString()) : esc("?"));
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      generic = false; kind = "Null";
    } else if (auto *E = dyn_cast<ExplicitCastExpr>(S)) {
      generic = false; kind = "Cast";
      attr("cast", esc(E->getStmtClassName())); attr("ckind", esc(E->getCastKindName()));
      add(E->getSubExpr());
    } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      generic = false; kind = "SizeOf"; (void)E;
    } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      generic = false; kind = "Lambda";
      const CXXMethodDecl *M = E->getCallOperator();
      if (auto *FT = M->getDescribedFunctionTemplate()) { // generic lambda: use its instantiations
        std::string l = "[";
        bool first = true;
        for (auto *Sp : FT->specializations()) { if (!first) l += ","; first = false; l += esc(fkey(Sp)); X.lambdas.push_back(cast<CXXMethodDecl>(Sp)); }
        attr("fs", l + "]");
      } else { attr("f", esc(fkey(M))); X.lambdas.push_back(M); }
      std::string cs = "[";
      bool first = true;
      for (auto &cap : E->captures()) {
        if (!first) cs += ","; first = false;
        if (cap.capturesThis()) cs += "[\"this\",0]";
        else if (cap.capturesVariable()) cs += "[" + esc(cap.getCapturedVar()->getNameAsString()) + "," + (cap.getCaptureKind() == LCK_ByRef ? "1" : "0") + "," + std::to_string(var(X, cast<ValueDecl>(cap.getCapturedVar()))) + "]";
        else cs += "[\"?\",0]";
      }
      attr("caps", cs + "]");
      for (auto *I : E->capture_inits()) if (I) add(I);
    } else if (auto *E = dyn_cast<CXXThrowExpr>(S)) {
      generic = false; kind = "Throw";
      if (E->getSubExpr()) { attr("tt", esc(ty(E->getSubExpr()->getType()))); add(E->getSubExpr()); }
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      generic = false; kind = "Decl";
      std::string l = "[";
      bool first = true;
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) {
        if (!first) l += ","; first = false;
        if (V->isLocalVarDecl()) {
          int vi = var(X, V); int init = -1;
          if (V->hasInit() && !V->isStaticLocal()) { init = stmt(X, V->getInit()); ch.push_back(init); }
          else if (V->hasInit()) { init = stmt(X, V->getInit()); ch.push_back(init); }
          l += "[" + std::to_string(vi) + "," + std::to_string(init) + "," + esc(V->hasInit() ? (V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list") : "") + "]";
        } else l += "[-1,-1,\"\"]";
      }
      attr("d", l + "]");
    } else if (auto *T = dyn_cast<CXXCatchStmt>(S)) {
      generic = false; kind = "Catch";
      attr("ct", esc(T->getExceptionDecl() ? ty(T->getCaughtType()) : "..."));
      if (T->getExceptionDecl()) attr("cv", std::to_string(var(X, T->getExceptionDecl())));
      add(T->getHandlerBlock());
    } else if (auto *T = dyn_cast<CaseStmt>(S)) {
      generic = false; kind = "Case"; add(T->getLHS()); add(T->getSubStmt());
    } else if (auto *T = dyn_cast<DefaultStmt>(S)) {
      generic = false; kind = "Default"; add(T->getSubStmt());
    } else if (auto *T = dyn_cast<IfStmt>(S)) {
      generic = false; kind = "If"; add(T->getInit()); if (T->getConditionVariableDeclStmt()) add(T->getConditionVariableDeclStmt()); else ch.push_back(-1);
      add(T->getCond()); add(T->getThen()); add(T->getElse());
    } else if (auto *T = dyn_cast<WhileStmt>(S)) {
      generic = false; kind = "While"; add(T->getCond()); add(T->getBody());
    } else if (auto *T = dyn_cast<DoStmt>(S)) {
      generic = false; kind = "Do"; add(T->getBody()); add(T->getCond());
    } else if (auto *T = dyn_cast<ForStmt>(S)) {
      generic = false; kind = "For"; add(T->getInit()); add(T->getCond()); add(T->getInc()); add(T->getBody());
    } else if (auto *T = dyn_cast<CXXForRangeStmt>(S)) {
      generic = false; kind = "RangeFor"; add(T->getRangeStmt()); add(T->getBeginStmt()); add(T->getEndStmt()); add(T->getCond()); add(T->getInc()); add(T->getLoopVarStmt()); add(T->getBody());
    } else if (auto *T = dyn_cast<SwitchStmt>(S)) {
      generic = false; kind = "Switch"; add(T->getCond()); add(T->getBody());
      attr("ct", esc(ty(T->getCond()->IgnoreImpCasts()->getType())));
    } else if (auto *T = dyn_cast<ReturnStmt>(S)) {
      generic = false; kind = "Return"; if (T->getRetValue()) add(T->getRetValue());
    } else if (auto *T = dyn_cast<CompoundStmt>(S)) {
      generic = false; kind = "Block"; for (auto *c : T->body()) add(c);
    } else if (auto *T = dyn_cast<InitListExpr>(S)) {
      generic = false; kind = "InitList"; for (auto *c : T->inits()) add(c);
    } else if (auto *T = dyn_cast<ConditionalOperator>(S)) {
      generic = false; kind = "Cond"; add(T->getCond()); add(T->getTrueExpr()); add(T->getFalseExpr());
    } else if (auto *T = dyn_cast<ArraySubscriptExpr>(S)) {
      generic = false; kind = "Index"; add(T->getBase()); add(T->getIdx());
    } else if (auto *T = dyn_cast<OMPExecutableDirective>(S)) {
      generic = false; kind = "OMP"; attr("dir", esc(T->getStmtClassName()));
      if (T->hasAssociatedStmt()) add(T->getRawStmt());
    }
    if (generic) for (auto *c : S->children()) if (c) add(c);
    if (auto *E = dyn_cast<Expr>(S)) {
      // integral constants fold
      if (E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent() && !isa<IntegerLiteral>(E) && E->isPRValue()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) attr("iv", llvm::toString(R.Val.getInt(), 10));
      } else if (E->getType()->isRealFloatingType() && !E->isValueDependent()) {
        llvm::APFloat V(0.0);
        if (E->isPRValue() && E->EvaluateAsFloat(V, C, Expr::SE_NoSideEffects)) { bool li; V.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); char b[64]; snprintf(b, 64, "%.17g", V.convertToDouble()); attr("fv", esc(b)); }
      }
    }
    std::string s = "{\"k\":" + esc(kind) + ",\"l\":" + std::to_string(line(S->getBeginLoc()));
    if (S->getBeginLoc().isMacroID()) s += ",\"mac\":1";
    s += a;
    if (!ch.empty()) {
      s += ",\"c\":[";
      for (size_t i = 0; i < ch.size(); i++) { if (i) s += ","; s += std::to_string(ch[i]); }
      s += "]";
    }
    s += "}";
    X.nodes[id] = s;
    return id;
  }

  void callee(const FunctionDecl *F, std::string &a) {
    a += ",\"f\":" + esc(fkey(F)) + ",\"fn\":" + esc(qn(F));
    std::string p = "[";
    for (unsigned i = 0; i < F->getNumParams(); i++) { if (i) p += ","; p += esc(ty(F->getParamDecl(i)->getType())); }
    a += ",\"pt\":" + p + "]";
    if (F->isNoReturn()) a += ",\"noret\":1";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isConst()) a += ",\"cm\":1"; }
  }

  std::string jfun(const FunctionDecl *F, FnCtx &X) {
    std::string s;
    auto attr = [&](const char *k, const std::string &v) { s += std::string(",\"") + k + "\":" + v; };
    attr("qn", esc(qn(F)));
    attr("name", esc(F->getNameAsString()));
    attr("file", esc(file(F->getLocation()).substr(Root.size() > 0 ? 0 : 0)));
    attr("line", std::to_string(line(F->getLocation())));
    attr("ret", esc(ty(F->getReturnType())));
    std::string p = "[";
    for (unsigned i = 0; i < F->getNumParams(); i++) { if (i) p += ","; p += std::to_string(var(X, F->getParamDecl(i))); }
    attr("params", p + "]");
    if (F->isTemplateInstantiation()) attr("inst", "1");
    if (F->isOverloadedOperator()) attr("op", esc(getOperatorSpelling(F->getOverloadedOperator())));
    if (F->isDefaulted()) attr("defaulted", "1");
    if (F->isImplicit()) attr("implicit", "1");
    if (F->getStorageClass() == SC_Static) attr("static", "1");
    if (F->isInAnonymousNamespace()) attr("anon", "1");
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      attr("cls", esc(usr(M->getParent()))); attr("clsn", esc(qn(M->getParent())));
      if (M->isStatic()) attr("static", "1");
      if (M->isConst()) attr("const", "1");
      if (M->isVirtual()) attr("virtual", "1");
      std::string o = "["; bool first = true;
      for (auto *ov : M->overridden_methods()) { if (!first) o += ","; first = false; o += esc(fkey(ov)); }
      attr("over", o + "]");
      attr("acc", std::to_string((int)M->getAccess()));
      if (M->getParent()->isLambda()) attr("lambda", "1");
    }
    if (isa<CXXConstructorDecl>(F)) attr("kind", esc("ctor"));
    else if (isa<CXXDestructorDecl>(F)) attr("kind", esc("dtor"));
    else if (isa<CXXConversionDecl>(F)) attr("kind", esc("conv"));
    else if (isa<CXXMethodDecl>(F)) attr("kind", esc("method"));
    else attr("kind", esc("func"));
    return s;
  }

  void function(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) {
      // implicit/defaulted special members without synthesised bodies are described in class facts
      return;
    }
    if (F->isDependentContext()) return;
    if (!inRoot(F->getLocation())) return;
    std::string key = fkey(F);
    if (key.empty() || !done.insert("F" + key).second) return;
    FnCtx X;
    std::string head = jfun(F, X);
    std::string inits = "[";
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      bool first = true;
      if (K->isDelegatingConstructor()) head += ",\"delegating\":1";
      if (K->isCopyConstructor()) head += ",\"copyctor\":1";
      if (K->isMoveConstructor()) head += ",\"movector\":1";
      if (K->isDefaultConstructor()) head += ",\"defctor\":1";
      for (auto *I : K->inits()) {
        if (!first) inits += ","; first = false;
        int e = stmt(X, I->getInit());
        std::string w = I->isWritten() ? "1" : "0";
        if (I->isAnyMemberInitializer()) {
          bool din = isa_and_nonnull<CXXDefaultInitExpr>(I->getInit());
          inits += "[\"m\"," + esc(usr(I->getAnyMember())) + "," + std::to_string(e) + "," + w + "," + (din ? "1" : "0") + "]";
        }
        else if (I->isBaseInitializer()) inits += "[\"b\"," + esc(ty(QualType(I->getBaseClass(), 0))) + "," + std::to_string(e) + "," + w + ",0]";
        else inits += "[\"d\",\"\"," + std::to_string(e) + "," + w + ",0]";
      }
    }
    inits += "]";
    int body = stmt(X, F->getBody());
    // CFG
    CFG::BuildOptions BO;
    BO.AddInitializers = true; BO.AddImplicitDtors = false; BO.AddEHEdges = false; BO.AddTemporaryDtors = false;
    BO.setAllAlwaysAdd();
    BO.PruneTriviallyFalseEdges = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &C, BO);
    std::string cfg = "null";
    if (G) {
      cfg = "{\"entry\":" + std::to_string(G->getEntry().getBlockID()) + ",\"exit\":" + std::to_string(G->getExit().getBlockID()) + ",\"b\":{";
      bool fb = true;
      for (auto *B : *G) {
        if (!fb) cfg += ","; fb = false;
        cfg += "\"" + std::to_string(B->getBlockID()) + "\":[[";
        bool fe = true; int last = -2;
        for (auto &El : *B) {
          std::string item;
          if (auto S = El.getAs<CFGStmt>()) {
            int n = stmt(X, S->getStmt());
            if (n == last) continue; // the same node through dropped wrappers
            last = n;
            item = std::to_string(n);
          } else if (auto I = El.getAs<CFGInitializer>()) {
            const CXXCtorInitializer *CI = I->getInitializer(); 
            int idx = 0, found = -1;
            if (auto *K = dyn_cast<CXXConstructorDecl>(F)) for (auto *ii : K->inits()) { if (ii == CI) found = idx; idx++; }
            item = "[\"init\"," + std::to_string(found) + "]"; last = -2;
          } else continue;
          if (!fe) cfg += ","; fe = false;
          cfg += item;
        }
        cfg += "],";
        const Stmt *T = B->getTerminatorStmt();
        cfg += std::to_string(T ? stmt(X, T) : -1) + ",";
        const Stmt *TC = B->getTerminatorCondition();
        cfg += std::to_string(TC ? stmt(X, TC) : -1) + ",[";
        bool fs = true;
        for (auto &Su : B->succs()) {
          if (!fs) cfg += ","; fs = false;
          const CFGBlock *sb = Su.getReachableBlock();
          if (!sb) sb = Su.getPossiblyUnreachableBlock();
          cfg += sb ? std::to_string(sb->getBlockID()) : "null";
        }
        cfg += "],";
        const Stmt *L = B->getLabel();
        cfg += std::to_string(L ? stmt(X, L) : -1);
        cfg += std::string(",") + (B->hasNoReturnElement() ? "1" : "0");
        cfg += "]";
      }
      cfg += "}}";
    }
    out << "F\t" << key << "\t{\"u\":" << esc(key) << head << ",\"inits\":" << inits << ",\"body\":" << body << ",\"vars\":[";
    for (size_t i = 0; i < X.varinfo.size(); i++) out << (i ? "," : "") << X.varinfo[i];
    out << "],\"nodes\":[";
    for (size_t i = 0; i < X.nodes.size(); i++) out << (i ? "," : "") << X.nodes[i];
    out << "],\"cfg\":" << cfg << "}\n";
    for (auto *M : X.lambdas) function(M);
  }

  std::string fieldJson(const FieldDecl *F) {
    QualType T = F->getType();
    QualType CT = T.getCanonicalType();
    std::string s = "{\"n\":" + esc(F->getNameAsString()) + ",\"u\":" + esc(usr(F)) + ",\"t\":" + esc(ty(T)) + ",\"l\":" + std::to_string(line(F->getLocation()));
    if (F->hasInClassInitializer()) s += ",\"init\":1";
    if (CT->isReferenceType()) s += ",\"ref\":1";
    if (CT->isPointerType()) s += ",\"ptr\":1";
    if (CT.isConstQualified()) s += ",\"const\":1";
    if (CT->isScalarType()) s += ",\"scalar\":1";
    if (auto *AT = C.getAsArrayType(CT)) { s += ",\"array\":1"; QualType E = C.getBaseElementType(CT); (void)AT; if (E->isScalarType()) s += ",\"scalararr\":1"; }
    if (auto *RD = CT->getAsCXXRecordDecl()) s += ",\"rec\":" + esc(usr(RD));
    if (F->isMutable()) s += ",\"mut\":1";
    return s + "}";
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R->getLocation())) return;
    std::string key = usr(R);
    if (key.empty() || !done.insert("C" + key).second) return;
    std::string s = "{\"u\":" + esc(key) + ",\"qn\":" + esc(qn(R)) + ",\"name\":" + esc(R->getNameAsString()) + ",\"ty\":" + esc(ty(C.getRecordType(R))) + ",\"file\":" + esc(file(R->getLocation())) + ",\"line\":" + std::to_string(line(R->getLocation()));
    if (isa<ClassTemplateSpecializationDecl>(R)) s += ",\"inst\":1";
    if (R->isUnion()) s += ",\"union\":1";
    if (R->isAggregate()) s += ",\"agg\":1";
    if (R->isAbstract()) s += ",\"abstract\":1";
    if (R->isPolymorphic()) s += ",\"poly\":1";
    if (R->hasUserDeclaredCopyConstructor()) s += ",\"ucc\":1";
    if (R->hasUserDeclaredCopyAssignment()) s += ",\"uca\":1";
    if (R->hasUserDeclaredMoveConstructor()) s += ",\"umc\":1";
    if (R->hasUserDeclaredMoveAssignment()) s += ",\"uma\":1";
    if (R->hasUserDeclaredDestructor()) s += ",\"udtor\":1";
    if (R->hasUserDeclaredConstructor()) s += ",\"uctor\":1";
    if (R->hasUserProvidedDefaultConstructor()) s += ",\"updc\":1";
    if (R->isTrivial()) s += ",\"trivial\":1";
    if (auto *D = R->getDestructor()) { if (D->isVirtual()) s += ",\"vdtor\":1"; }
    s += ",\"bases\":[";
    bool first = true;
    for (auto &B : R->bases()) {
      if (!first) s += ","; first = false;
      auto *BR = B.getType()->getAsCXXRecordDecl();
      s += "{\"u\":" + esc(BR ? usr(BR) : "") + ",\"n\":" + esc(ty(B.getType())) + ",\"virt\":" + (B.isVirtual() ? "1" : "0") + ",\"acc\":" + std::to_string((int)B.getAccessSpecifier()) + "}";
    }
    s += "],\"fields\":[";
    first = true;
    for (auto *F : R->fields()) { if (!first) s += ","; first = false; s += fieldJson(F); }
    s += "],\"methods\":[";
    first = true;
    for (auto *M : R->methods()) {
      if (!first) s += ","; first = false;
      s += "{\"u\":" + esc(fkey(M)) + ",\"n\":" + esc(M->getNameAsString());
      if (M->isVirtual()) s += ",\"virt\":1";
      if (M->isPureVirtual()) s += ",\"pure\":1";
      if (M->isDeleted()) s += ",\"del\":1";
      if (M->isDefaulted()) s += ",\"dflt\":1";
      if (M->isImplicit()) s += ",\"impl\":1";
      if (M->isConst()) s += ",\"const\":1";
      if (M->isStatic()) s += ",\"static\":1";
      s += ",\"acc\":" + std::to_string((int)M->getAccess());
      s += ",\"ret\":" + esc(ty(M->getReturnType()));
      s += ",\"pt\":[";
      for (unsigned i = 0; i < M->getNumParams(); i++) { if (i) s += ","; s += esc(ty(M->getParamDecl(i)->getType())); }
      s += "],\"over\":[";
      bool fo = true;
      for (auto *ov : M->overridden_methods()) { if (!fo) s += ","; fo = false; s += esc(fkey(ov)); }
      s += "]";
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        s += ",\"ctor\":1"; if (K->isCopyConstructor()) s += ",\"cc\":1"; if (K->isMoveConstructor()) s += ",\"mc\":1"; if (K->isDefaultConstructor()) s += ",\"dc\":1";
      }
      if (isa<CXXDestructorDecl>(M)) s += ",\"dtor\":1";
      if (M->isCopyAssignmentOperator()) s += ",\"ca\":1";
      s += "}";
    }
    s += "],\"statics\":[";
    first = true;
    for (auto *D : R->decls()) if (auto *V = dyn_cast<VarDecl>(D)) {
      if (!first) s += ","; first = false;
      s += "{\"n\":" + esc(V->getNameAsString()) + ",\"u\":" + esc(usr(V)) + ",\"t\":" + esc(ty(V->getType())) + "}";
    }
    s += "]}";
    out << "C\t" << key << "\t" << s << "\n";
  }

  void global(const VarDecl *V) {
    if (V->isLocalVarDeclOrParm() || !inRoot(V->getLocation())) return;
    if (V->getDeclContext()->isDependentContext()) return;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
    std::string key = usr(V);
    if (key.empty() || !done.insert("G" + key).second) return;
    FnCtx X;
    int init = V->hasInit() ? stmt(X, V->getInit()) : -1;
    std::string s = "{\"u\":" + esc(key) + ",\"qn\":" + esc(qn(V)) + ",\"name\":" + esc(V->getNameAsString()) + ",\"t\":" + esc(ty(V->getType())) + ",\"file\":" + esc(file(V->getLocation())) + ",\"line\":" + std::to_string(line(V->getLocation())) + ",\"init\":" + std::to_string(init);
    if (V->getType().isConstQualified()) s += ",\"const\":1";
    if (V->isStaticDataMember()) s += ",\"sdm\":1";
    if (V->isInAnonymousNamespace() || V->getStorageClass() == SC_Static) s += ",\"internal\":1";
    if (init >= 0 && !V->isInvalidDecl() && V->getType()->isRealFloatingType()) {
      if (const APValue *A = V->evaluateValue()) if (A->isFloat()) { char b[64]; llvm::APFloat f = A->getFloat(); bool li; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); snprintf(b, 64, "%.17g", f.convertToDouble()); s += std::string(",\"fv\":") + esc(b); }
    }
    s += ",\"vars\":[";
    for (size_t i = 0; i < X.varinfo.size(); i++) s += (i ? "," : "") + X.varinfo[i];
    s += "],\"nodes\":[";
    for (size_t i = 0; i < X.nodes.size(); i++) s += (i ? "," : "") + X.nodes[i];
    s += "]}";
    out << "G\t" << key << "\t" << s << "\n";
    for (auto *M : X.lambdas) function(M);
  }

  void enumd(const EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !inRoot(E->getLocation())) return;
    std::string key = usr(E);
    if (key.empty() || !done.insert("E" + key).second) return;
    std::string s = "{\"u\":" + esc(key) + ",\"qn\":" + esc(qn(E)) + ",\"ty\":" + esc(ty(C.getEnumType(E))) + ",\"file\":" + esc(file(E->getLocation())) + ",\"line\":" + std::to_string(line(E->getLocation())) + ",\"vals\":[";
    bool first = true;
    for (auto *EC : E->enumerators()) { if (!first) s += ","; first = false; s += "[" + esc(qn(EC)) + "," + llvm::toString(EC->getInitVal(), 10) + "]"; }
    s += "]}";
    out << "E\t" << key << "\t" << s << "\n";
  }
};

struct V : RecursiveASTVisitor<V> {
  Emitter &E;
  V(Emitter &e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { E.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { E.record(R); return true; }
  bool VisitVarDecl(VarDecl *D) { E.global(D); return true; }
  bool VisitEnumDecl(EnumDecl *D) { E.enumd(D); return true; }
};

struct Consumer : ASTConsumer {
  std::ofstream &out; CompilerInstance &CI;
  Consumer(std::ofstream &o, CompilerInstance &ci) : out(o), CI(ci) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Emitter E(C, out);
    V v(E);
    // only top-level declarations under the root (and namespaces): skip system headers quickly
    SourceManager &SMm = C.getSourceManager();
    for (Decl *D : C.getTranslationUnitDecl()->decls()) {
      SourceLocation L = D->getLocation();
      if (L.isValid() && !E.inRoot(L) && !(isa<ClassTemplateSpecializationDecl>(D) && SMm.isInMainFile(L))) continue;
      v.TraverseDecl(D);
    }
    // every file read
    SourceManager &SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      std::string n = std::string(it->first.getName());
      if (n.compare(0, 5, "/usr/") == 0) continue;
      out << "D\t" << n << "\t\n";
    }
    out << "Z\tend\t\n";
  }
};
struct Action : ASTFrontendAction {
  std::ofstream &out;
  Action(std::ofstream &o) : out(o) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(out, CI); }
};
struct Factory : tooling::FrontendActionFactory {
  std::ofstream &out;
  Factory(std::ofstream &o) : out(o) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(out); }
};

// extract ROOT OUT FILE -- flags...
int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  Root = argv[1]; OutPath = argv[2];
  std::string f = argv[3];
  std::vector<std::string> flags;
  int i = 4; if (i < argc && std::string(argv[i]) == "--") i++;
  for (; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {f});
  std::ofstream out(OutPath);
  Factory F(out);
  return T.run(&F);
}
