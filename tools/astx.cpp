// astx: mechanical extraction of function bodies from the real C++ sources.
// For every function definition located under --root (template instantiations and lambdas included)
// prints the clang AST, with types resolved and implicit conversions explicit, as JSON. Nothing is rewritten:
// only parentheses, cleanups and temporaries-materialisation wrappers are dropped, and integral/floating constant
// expressions that clang itself evaluates are emitted as constants.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
using llvm::json::Object; using llvm::json::Array; using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutPath;

struct X {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<std::string,int> TyIds; Array Types;
  std::map<const void*, int> DeclIds;
  std::deque<const FunctionDecl*> Work; std::set<const FunctionDecl*> Seen;
  std::map<std::string, bool> RecSeen; Array Records; std::deque<const CXXRecordDecl*> RecWork;
  Array Funcs; Array Globals; std::set<const VarDecl*> GSeen;
  X(ASTContext &C): C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) { PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true; PP.AnonymousTagLocations=false;}

  int id(const Decl *D) { const void *p = D->getCanonicalDecl(); auto it = DeclIds.find(p); if (it != DeclIds.end()) return it->second; int n = DeclIds.size(); DeclIds[p] = n; return n; }
  bool inRoot(SourceLocation L) {
    L = SM.getExpansionLoc(L); if (L.isInvalid()) return false;
    auto F = SM.getFilename(L).str();
    if (F.empty()) return false;
    for (auto &r : Roots) if (F.rfind(r, 0) == 0) return true;
    return false;
  }
  std::string locs(SourceLocation L) { L = SM.getExpansionLoc(L); if (L.isInvalid()) return "?"; return SM.getFilename(L).str() + ":" + std::to_string(SM.getExpansionLineNumber(L)); }

  std::string recName(const RecordDecl *R) {
    if (auto *CR = dyn_cast<CXXRecordDecl>(R)) if (CR->isLambda()) return "lambda@" + std::to_string(id(R));
    std::string s; llvm::raw_string_ostream os(s); 
    R->printQualifiedName(os, PP);
    if (s.find("(anonymous") != std::string::npos || s.empty() || s.find("(unnamed") != std::string::npos) s += "#";
    return s;
  }
  int ty(QualType Q) {
    Q = Q.getCanonicalType();
    std::string key = Q.getAsString(PP);
    if (auto *RT = Q->getAs<RecordType>()) if (auto *CR = dyn_cast<CXXRecordDecl>(RT->getDecl())) if (CR->isLambda()) key = "lambda@" + std::to_string(id(CR)) + (Q.isConstQualified() ? "c" : "");
    auto it = TyIds.find(key); if (it != TyIds.end()) return it->second;
    int n = Types.size(); TyIds[key] = n; Types.push_back(nullptr);
    Object o; o["s"] = key;
    if (Q.isConstQualified()) o["c"] = true;
    if (Q->isVoidType()) o["k"] = "void";
    else if (Q->isBooleanType()) o["k"] = "bool";
    else if (auto *ET = Q->getAs<EnumType>()) { o["k"] = "enum"; o["n"] = ET->getDecl()->getQualifiedNameAsString(); o["u"] = ty(ET->getDecl()->getIntegerType().isNull()? C.IntTy : ET->getDecl()->getIntegerType());
      Array es; for (auto *e : ET->getDecl()->enumerators()) es.push_back(Object{{"n", e->getNameAsString()}, {"v", (int64_t)e->getInitVal().getExtValue()}}); o["vals"] = std::move(es); }
    else if (Q->isNullPtrType()) o["k"] = "nullptr";
    else if (Q->isIntegerType()) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(Q); o["sg"] = Q->isSignedIntegerType(); o["ch"] = Q->isAnyCharacterType(); }
    else if (Q->isRealFloatingType()) { o["k"] = "float"; o["w"] = (int64_t)C.getTypeSize(Q); }
    else if (Q->isMemberPointerType()) { o["k"] = "memptr"; }
    else if (auto *PT = Q->getAs<PointerType>()) { o["k"] = "ptr"; o["to"] = ty(PT->getPointeeType()); }
    else if (auto *RT = Q->getAs<ReferenceType>()) { o["k"] = "ref"; o["rv"] = Q->isRValueReferenceType(); o["to"] = ty(RT->getPointeeType()); }
    else if (auto *AT = dyn_cast<ConstantArrayType>(Q.getTypePtr())) { o["k"] = "array"; o["of"] = ty(AT->getElementType()); o["len"] = (int64_t)AT->getSize().getZExtValue(); }
    else if (auto *FT = Q->getAs<FunctionProtoType>()) { o["k"] = "func"; o["ret"] = ty(FT->getReturnType()); Array ps; for (auto p : FT->param_types()) ps.push_back(ty(p)); o["ps"] = std::move(ps); }
    else if (auto *RT = Q->getAs<RecordType>()) {
      o["k"] = "rec"; auto *R = RT->getDecl(); o["n"] = recName(R);
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) { o["args"] = targs(S->getTemplateArgs().asArray()); }
      bool ro = inRoot(R->getLocation()); o["own"] = ro;
      if (auto *CR = dyn_cast<CXXRecordDecl>(R)) { if (CR->isLambda()) o["lambda"] = true; o["rid"] = id(R); if (ro || CR->isLambda()) queueRec(CR); }
    } else o["k"] = "other";
    Types[n] = std::move(o); return n;
  }
  Array targs(llvm::ArrayRef<TemplateArgument> as) {
    Array a; for (auto &t : as) {
      switch (t.getKind()) {
        case TemplateArgument::Type: a.push_back(Object{{"t", ty(t.getAsType())}}); break;
        case TemplateArgument::Integral: a.push_back(Object{{"v", (int64_t)t.getAsIntegral().getExtValue()}}); break;
        case TemplateArgument::Pack: for (auto &x : targs(t.pack_elements())) a.push_back(std::move(x)); break;
        default: a.push_back(Object{{"o", 1}});
      } }
    return a;
  }
  std::set<int> RecQ;
  void queueRec(const CXXRecordDecl *R) { R = R->getDefinition(); if (!R) return; if (RecQ.insert(id(R)).second) RecWork.push_back(R); }
  void emitRec(const CXXRecordDecl *R) {
    Object o; o["rid"] = id(R); o["n"] = recName(R); o["loc"] = locs(R->getLocation());
    o["ty"] = ty(C.getRecordType(R));
    Array bs; for (auto &b : R->bases()) { bs.push_back(ty(b.getType())); }
    o["bases"] = std::move(bs);
    Array fs; for (auto *f : R->fields()) { Object fo; fo["id"] = id(f); fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType()); if (f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    if (R->isLambda()) { if (auto *op = R->getLambdaCallOperator()) { o["call"] = id(op); queueFn(op); }
      Array cs; for (auto &c : R->captures()) { Object co; co["this"] = c.capturesThis(); co["byref"] = c.getCaptureKind() == LCK_ByRef; if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); } cs.push_back(std::move(co)); }
      o["captures"] = std::move(cs);
      // generic lambdas: instantiated call operators
      if (auto *t = R->getDependentLambdaCallOperator()) for (auto *s : t->specializations()) { queueFn(s); }
    }
    o["virtual"] = R->isPolymorphic();
    Array ms; for (auto *m : R->methods()) { Object mo; mo["id"] = id(m); mo["n"] = m->getNameAsString(); mo["virt"] = m->isVirtual(); Array ov; for (auto *x : m->overridden_methods()) ov.push_back(id(x)); mo["over"] = std::move(ov); mo["def"] = m->isDefined(); ms.push_back(std::move(mo)); if (m->isUserProvided() || m->isLambdaStaticInvoker()) queueFn(m); }
    o["methods"] = std::move(ms);
    Records.push_back(std::move(o));
  }
  void queueFn(const FunctionDecl *F) {
    if (!F) return; const FunctionDecl *D = nullptr; 
    if (!F->isDefined(D)) { if (auto *P = F->getTemplateInstantiationPattern()) { (void)P; } return; }
    if (D->isDependentContext()) return;
    if (!inRoot(D->getLocation()) ) return;
    if (Seen.insert(D).second) Work.push_back(D);
  }
  std::string fnName(const FunctionDecl *F) {
    std::string s; llvm::raw_string_ostream os(s);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->getParent()->isLambda()) return recName(M->getParent()) + "::operator()"; }
    F->printQualifiedName(os, PP); return s;
  }
  Object fnRef(const FunctionDecl *F) {
    Object o; o["id"] = id(F); o["n"] = fnName(F); o["sn"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = ty(C.getRecordType(M->getParent())); o["virt"] = M->isVirtual(); o["static"] = M->isStatic(); o["const"] = M->isConst(); }
    if (isa<CXXConversionDecl>(F)) o["conv"] = true;
    o["ret"] = ty(F->getReturnType());
    Array ps; for (auto *p : F->parameters()) ps.push_back(ty(p->getType())); o["ps"] = std::move(ps);
    if (auto *ta = F->getTemplateSpecializationArgs()) o["targs"] = targs(ta->asArray());
    queueFn(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (inRoot(M->getParent()->getLocation())) queueRec(M->getParent());
    return o;
  }
  void emitFn(const FunctionDecl *F) {
    Object o = fnRef(F); o["loc"] = locs(F->getLocation()); o["end"] = locs(F->getEndLoc());
    Array ps; for (auto *p : F->parameters()) ps.push_back(Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}}); o["params"] = std::move(ps);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true; Array is;
      for (auto *I : K->inits()) { Object io; if (I->isAnyMemberInitializer()) { io["field"] = I->getAnyMember()->getNameAsString(); } else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(),0)); else io["deleg"] = true; io["init"] = E(I->getInit()); is.push_back(std::move(io)); }
      o["inits"] = std::move(is);
      if (F->isImplicit() || F->isDefaulted()) o["dflt"] = true;
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->isDefaulted()) o["dflt"] = true;
    if (auto *B = F->getBody()) o["body"] = S(B);
    Funcs.push_back(std::move(o));
  }
  Value S(const Stmt *s) {
    if (!s) return nullptr;
    Object o; o["l"] = (int64_t)SM.getExpansionLineNumber(SM.getExpansionLoc(s->getBeginLoc()));
    if (auto *e = dyn_cast<Expr>(s)) { o["s"] = "expr"; o["e"] = E(e); return std::move(o); }
    if (auto *c = dyn_cast<CompoundStmt>(s)) { o["s"] = "block"; Array a; for (auto *x : c->body()) a.push_back(S(x)); o["b"] = std::move(a); return std::move(o); }
    if (auto *d = dyn_cast<DeclStmt>(s)) { o["s"] = "decl"; Array a; for (auto *x : d->decls()) if (auto *v = dyn_cast<VarDecl>(x)) a.push_back(var(v)); o["d"] = std::move(a); return std::move(o); }
    if (auto *i = dyn_cast<IfStmt>(s)) { o["s"] = "if"; if (i->getInit()) o["init"] = S(i->getInit()); if (i->getConditionVariable()) o["cv"] = var(i->getConditionVariable()); o["c"] = E(i->getCond()); o["t"] = S(i->getThen()); o["f"] = S(i->getElse()); return std::move(o); }
    if (auto *w = dyn_cast<WhileStmt>(s)) { o["s"] = "while"; if (w->getConditionVariable()) o["cv"] = var(w->getConditionVariable()); o["c"] = E(w->getCond()); o["b"] = S(w->getBody()); return std::move(o); }
    if (auto *w = dyn_cast<DoStmt>(s)) { o["s"] = "do"; o["c"] = E(w->getCond()); o["b"] = S(w->getBody()); return std::move(o); }
    if (auto *f = dyn_cast<ForStmt>(s)) { o["s"] = "for"; o["init"] = S(f->getInit()); if (f->getCond()) o["c"] = E(f->getCond()); if (f->getInc()) o["inc"] = E(f->getInc()); o["b"] = S(f->getBody()); return std::move(o); }
    if (auto *f = dyn_cast<CXXForRangeStmt>(s)) { o["s"] = "range"; 
      Array pre; pre.push_back(S(f->getRangeStmt())); pre.push_back(S(f->getBeginStmt())); pre.push_back(S(f->getEndStmt())); o["pre"] = std::move(pre);
      o["c"] = E(f->getCond()); o["inc"] = E(f->getInc()); o["v"] = S(f->getLoopVarStmt()); o["b"] = S(f->getBody()); return std::move(o); }
    if (auto *r = dyn_cast<ReturnStmt>(s)) { o["s"] = "ret"; if (r->getRetValue()) o["e"] = E(r->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(s)) { o["s"] = "break"; return std::move(o); }
    if (isa<ContinueStmt>(s)) { o["s"] = "continue"; return std::move(o); }
    if (isa<NullStmt>(s)) { o["s"] = "null"; return std::move(o); }
    if (auto *w = dyn_cast<SwitchStmt>(s)) { o["s"] = "switch"; o["c"] = E(w->getCond()); o["b"] = S(w->getBody()); return std::move(o); }
    if (auto *c = dyn_cast<CaseStmt>(s)) { o["s"] = "case"; Expr::EvalResult r; if (c->getLHS()->EvaluateAsInt(r, C)) o["v"] = r.Val.getInt().getExtValue(); o["b"] = S(c->getSubStmt()); return std::move(o); }
    if (auto *c = dyn_cast<DefaultStmt>(s)) { o["s"] = "default"; o["b"] = S(c->getSubStmt()); return std::move(o); }
    if (auto *t = dyn_cast<CXXTryStmt>(s)) { o["s"] = "try"; o["b"] = S(t->getTryBlock()); Array a; for (unsigned i = 0; i < t->getNumHandlers(); i++) { auto *h = t->getHandler(i); Object ho; if (h->getExceptionDecl()) ho["v"] = var(h->getExceptionDecl()); ho["b"] = S(h->getHandlerBlock()); a.push_back(std::move(ho)); } o["h"] = std::move(a); return std::move(o); }
    o["s"] = "unsupported"; o["cls"] = s->getStmtClassName(); return std::move(o);
  }
  Object var(const VarDecl *v) { Object o; o["id"] = id(v); o["n"] = v->getNameAsString(); o["t"] = ty(v->getType()); if (v->getInit()) o["init"] = E(v->getInit()); if (v->isStaticLocal()) o["static"] = true; return o; }
  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) { Array a; for (auto *x : r) a.push_back(E(x)); return a; }
  std::string dbl(llvm::APFloat v) { bool li; v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); char buf[64]; snprintf(buf, sizeof buf, "%a", v.convertToDouble()); return buf; }
  Value E(const Expr *e0) {
    if (!e0) return nullptr;
    const Expr *e = e0;
    // transparent wrappers
    for (;;) {
      if (auto *p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
      else break;
    }
    Object o; o["t"] = ty(e->getType()); o["l"] = (int64_t)SM.getExpansionLineNumber(SM.getExpansionLoc(e->getBeginLoc()));
    if (e->isGLValue()) o["lv"] = true;
    if (!e->isValueDependent() && e->isPRValue() && !e->getType()->isVoidType()) {
      QualType q = e->getType();
      if (q->isIntegralOrEnumerationType() || q->isRealFloatingType()) {
        Expr::EvalResult r;
        if (e->EvaluateAsRValue(r, C) && !r.HasSideEffects) {
          if (r.Val.isInt()) { o["e"] = "int"; llvm::SmallString<40> s; r.Val.getInt().toString(s, 10); o["v"] = s.str().str(); return std::move(o); }
          if (r.Val.isFloat()) { o["e"] = "fp"; o["v"] = dbl(r.Val.getFloat()); return std::move(o); }
        }
      }
    }
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { o["e"] = "mat"; o["x"] = E(x->getSubExpr()); return std::move(o); }
    if (auto *x = dyn_cast<clang::StringLiteral>(e)) { o["e"] = "str"; if (x->getCharByteWidth()==1) { std::string hx; for (unsigned char c : x->getBytes()) { char b[3]; snprintf(b,3,"%02x",c); hx += b; } o["hex"] = hx; } return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["e"] = "null"; return std::move(o); }
    if (isa<CXXThisExpr>(e)) { o["e"] = "this"; return std::move(o); }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto *d = x->getDecl(); o["id"] = id(d); o["n"] = d->getNameAsString();
      if (auto *f = dyn_cast<FunctionDecl>(d)) { o["e"] = "fn"; o["f"] = fnRef(f); }
      else if (auto *en = dyn_cast<EnumConstantDecl>(d)) { o["e"] = "int"; llvm::SmallString<40> s; en->getInitVal().toString(s, 10); o["v"] = s.str().str(); }
      else { o["e"] = "var"; if (auto *v = dyn_cast<VarDecl>(d)) { if (v->hasGlobalStorage()) { o["glob"] = v->getQualifiedNameAsString(); global(v); } } if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true; }
      return std::move(o);
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto *d = x->getMemberDecl();
      if (auto *v = dyn_cast<VarDecl>(d)) { o["e"] = "var"; o["id"] = id(v); o["n"] = v->getNameAsString(); o["glob"] = v->getQualifiedNameAsString(); global(v); return std::move(o); }
      o["b"] = E(x->getBase()); o["arrow"] = x->isArrow(); o["n"] = d->getNameAsString();
      if (auto *f = dyn_cast<CXXMethodDecl>(d)) { o["e"] = "memfn"; o["f"] = fnRef(f); if (x->hasQualifier()) o["qual"] = true; }
      else { o["e"] = "mem"; o["id"] = id(d); o["fc"] = ty(C.getRecordType(cast<RecordDecl>(d->getDeclContext()))); }
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) { o["e"] = "opcall"; o["op"] = getOperatorSpelling(x->getOperator()); if (auto *f = x->getDirectCallee()) o["f"] = fnRef(f); o["a"] = args(x->arguments()); return std::move(o); }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) { o["e"] = "mcall"; if (auto *m = x->getMethodDecl()) o["f"] = fnRef(m); if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { o["arrow"] = me->isArrow(); o["b"] = E(me->getBase()); if (me->hasQualifier()) o["qual"] = true; } o["a"] = args(x->arguments()); return std::move(o); }
    if (auto *x = dyn_cast<CallExpr>(e)) { o["e"] = "call"; if (auto *f = x->getDirectCallee()) o["f"] = fnRef(f); else o["c"] = E(x->getCallee()); o["a"] = args(x->arguments()); return std::move(o); }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) { o["e"] = "ctor"; auto *k = x->getConstructor(); o["f"] = fnRef(k); o["copy"] = k->isCopyConstructor(); o["move"] = k->isMoveConstructor(); o["triv"] = !k->isUserProvided(); if (x->isListInitialization()) o["list"] = true; Array a; for (auto *y : x->arguments()) a.push_back(E(y)); o["a"] = std::move(a); return std::move(o); }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["e"] = "unsupported"; o["cls"] = e->getStmtClassName(); return std::move(o);}
    if (auto *x = dyn_cast<LambdaExpr>(e)) { o["e"] = "lambda"; queueRec(x->getLambdaClass()); o["rid"] = id(x->getLambdaClass()->getDefinition()); queueFn(x->getCallOperator()); Array a; for (auto *y : x->capture_inits()) a.push_back(E(y)); o["inits"] = std::move(a); return std::move(o); }
    if (auto *x = dyn_cast<CastExpr>(e)) { o["e"] = "cast"; o["ck"] = x->getCastKindName(); o["x"] = E(x->getSubExpr()); 
      if (isa<CXXDynamicCastExpr>(x)) o["dyn"] = true; if (isa<ExplicitCastExpr>(x)) o["expl"] = true; if (auto *cf = x->getConversionFunction()) if (auto *ff = dyn_cast<FunctionDecl>(cf)) o["f"] = fnRef(ff); return std::move(o); }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) { o["e"] = "cassign"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str(); o["ct"] = ty(x->getComputationLHSType()); o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); return std::move(o); }
    if (auto *x = dyn_cast<BinaryOperator>(e)) { o["e"] = "bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); return std::move(o); }
    if (auto *x = dyn_cast<UnaryOperator>(e)) { o["e"] = "un"; std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) op = "post" + op; o["op"] = op; o["x"] = E(x->getSubExpr()); return std::move(o); }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) { o["e"] = "cond"; o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr()); return std::move(o); }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o["e"] = "sub"; o["a"] = E(x->getBase()); o["b"] = E(x->getIdx()); return std::move(o); }
    if (auto *x = dyn_cast<InitListExpr>(e)) { o["e"] = "ilist"; auto *sx = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x); Array a; for (auto *y : sx->inits()) a.push_back(E(y)); o["a"] = std::move(a); return std::move(o); }
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { o["e"] = "stdilist"; o["x"] = E(x->getSubExpr()); return std::move(o); }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["e"] = "zero"; return std::move(o); }
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { o["e"] = "throw"; if (x->getSubExpr()) { o["x"] = E(x->getSubExpr()); } return std::move(o); }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) { o["e"] = "new"; o["at"] = ty(x->getAllocatedType()); if (x->getInitializer()) o["init"] = E(x->getInitializer()); if (x->isArray()) o["n"] = E(*x->getArraySize()); return std::move(o); }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["e"] = "delete"; o["x"] = E(x->getArgument()); return std::move(o); }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return E(x->getSourceExpr()); }
    if (auto *x = dyn_cast<CXXTypeidExpr>(e)) { o["e"] = "typeid"; return std::move(o); }
    o["e"] = "unsupported"; o["cls"] = e->getStmtClassName(); return std::move(o);
  }
  void global(const VarDecl *v) {
    const VarDecl *d = v; if (auto *df = v->getDefinition(C)) d = df; 
    if (v->isLocalVarDecl() ) { }
    if (!GSeen.insert(d->getCanonicalDecl()).second) return;
    const Expr *init = d->getAnyInitializer();
    Object o; o["id"] = id(d); o["n"] = d->getQualifiedNameAsString(); o["t"] = ty(d->getType()); o["const"] = d->getType().isConstQualified();
    if (init && inRoot(d->getLocation()) && !d->getType()->isDependentType()) o["init"] = E(init);
    Globals.push_back(std::move(o));
  }
  void run() {
    struct V : RecursiveASTVisitor<V> { X &x; V(X &x) : x(x) {} bool shouldVisitTemplateInstantiations() const { return true; } bool shouldVisitImplicitCode() const { return true; }
      bool VisitFunctionDecl(FunctionDecl *F) { if (F->isThisDeclarationADefinition() && !F->isDependentContext()) x.queueFn(F); return true; }
      bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isDependentContext() && x.inRoot(R->getLocation())) x.queueRec(R); return true; }
      bool VisitVarDecl(VarDecl *v) { return true; } };
    V v(*this); v.TraverseDecl(C.getTranslationUnitDecl());
    while (!Work.empty() || !RecWork.empty()) {
      if (!Work.empty()) { auto *F = Work.front(); Work.pop_front(); emitFn(F); continue; }
      auto *R = RecWork.front(); RecWork.pop_front(); emitRec(R);
    }
    Object o; o["types"] = std::move(Types); o["funcs"] = std::move(Funcs); o["records"] = std::move(Records); o["globals"] = std::move(Globals);
    std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec); os << Value(std::move(o));
  }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { if (C.getDiagnostics().hasErrorOccurred()) return; X x(C); x.run(); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };
int main(int argc, const char **argv) {
  // astx OUT.json root1,root2 SRC -- flags
  std::string out = argv[1], roots = argv[2], src = argv[3]; OutPath = out;
  size_t p = 0; while (p <= roots.size()) { size_t q = roots.find(',', p); if (q == std::string::npos) q = roots.size(); Roots.push_back(roots.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> flags; for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {src}); Fac f; return T.run(&f);
}
