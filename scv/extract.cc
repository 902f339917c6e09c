// scv-extract: dumps the fully resolved function bodies of a translation unit
// (templates instantiated, implicit casts explicit) as JSON for the VC
// generator.  Nothing is rewritten: each node mirrors a clang AST node.
// Dropped: parentheses, temporaries' lifetime markers, comments, attributes.
#include <map>
#include <set>
#include <string>
#include <vector>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace json = llvm::json;

static std::string g_root = "/repo/src";
static std::vector<std::string> g_prefix;

struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  std::map<const void*, int> type_ids;
  json::Array types;
  std::map<const Decl*, int> var_ids;
  std::map<const Decl*, std::string> fkeys;
  json::Object fdecls;
  json::Object records;
  json::Object enums;
  json::Array functions;
  std::set<const Decl*> done_records, done_enums, done_funcs;
  std::vector<const FunctionDecl*> lambda_q;

  explicit Dumper(ASTContext& c)
      : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), NG(c) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
    PP.AnonymousTagLocations = false;
    PP.SuppressUnwrittenScope = false;
  }

  std::string fileOf(SourceLocation l) {
    if (l.isInvalid()) return "";
    auto f = SM.getFilename(SM.getExpansionLoc(l));
    return f.str();
  }
  int lineOf(SourceLocation l) {
    return l.isInvalid() ? 0 : SM.getExpansionLineNumber(l);
  }
  bool inRoot(const Decl* d) {
    std::string f = fileOf(d->getLocation());
    for (auto& p : g_prefix)
      if (f.rfind(p, 0) == 0) return true;
    return false;
  }

  json::Array targs(llvm::ArrayRef<TemplateArgument> as) {
    json::Array r;
    for (auto& a : as) {
      switch (a.getKind()) {
        case TemplateArgument::Type: r.push_back(json::Object{{"t", type(a.getAsType())}}); break;
        case TemplateArgument::Integral: {
          llvm::SmallString<32> s; a.getAsIntegral().toString(s);
          r.push_back(json::Object{{"i", s.str().str()}}); break; }
        case TemplateArgument::Pack: for (auto& x : targs(a.pack_elements())) r.push_back(std::move(x)); break;
        case TemplateArgument::Declaration:
          r.push_back(json::Object{{"d", a.getAsDecl()->getQualifiedNameAsString()}}); break;
        default: r.push_back(json::Object{{"o", (int)a.getKind()}});
      }
    }
    return r;
  }

  int type(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    void* key = q.getAsOpaquePtr();
    auto it = type_ids.find(key);
    if (it != type_ids.end()) return it->second;
    int id = types.size();
    type_ids[key] = id;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = q.getUnqualifiedType().getAsString(PP);
    if (q.isConstQualified()) o["c"] = true;
    const Type* t = q.getTypePtr();
    if (auto* b = dyn_cast<BuiltinType>(t)) {
      o["k"] = b->isBooleanType() ? "bool" : b->isFloatingPoint() ? "float" : b->isInteger() ? "int" : "builtin";
      if (b->isInteger()) { o["w"] = (int)C.getTypeSize(t); o["u"] = b->isUnsignedInteger(); }
    } else if (auto* p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr"; o["e"] = type(p->getPointeeType());
    } else if (auto* p = dyn_cast<LValueReferenceType>(t)) {
      o["k"] = "lref"; o["e"] = type(p->getPointeeType());
    } else if (auto* p = dyn_cast<RValueReferenceType>(t)) {
      o["k"] = "rref"; o["e"] = type(p->getPointeeType());
    } else if (auto* e = dyn_cast<EnumType>(t)) {
      o["k"] = "enum"; o["d"] = e->getDecl()->getQualifiedNameAsString(); enumDecl(e->getDecl());
    } else if (auto* r = dyn_cast<RecordType>(t)) {
      o["k"] = "record";
      o["d"] = r->getDecl()->getQualifiedNameAsString();
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r->getDecl()))
        o["a"] = targs(sp->getTemplateArgs().asArray());
      if (auto* cx = dyn_cast<CXXRecordDecl>(r->getDecl())) {
        if (cx->isLambda()) o["lambda"] = (int64_t)(intptr_t)cx;
      }
      record(r->getDecl(), q.getUnqualifiedType());
    } else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "array"; o["e"] = type(a->getElementType()); o["n"] = (int64_t)a->getSize().getZExtValue();
    } else if (isa<FunctionProtoType>(t)) { o["k"] = "func";
    } else { o["k"] = "other"; o["cls"] = t->getTypeClassName(); }
    types[id] = std::move(o);
    return id;
  }

  void enumDecl(const EnumDecl* e) {
    if (!done_enums.insert(e).second) return;
    json::Object o;
    for (auto* c : e->enumerators()) o[c->getNameAsString()] = c->getInitVal().getExtValue();
    enums[e->getQualifiedNameAsString()] = std::move(o);
  }

  std::string recName(const RecordDecl* r) {
    return C.getRecordType(r).getCanonicalType().getAsString(PP);
  }

  void record(const RecordDecl* r, QualType) {
    r = r->getDefinition();
    if (!r || !done_records.insert(r).second) return;
    std::string f = fileOf(r->getLocation());
    bool root = inRoot(r);
    if (!root) return;
    json::Object o;
    o["q"] = r->getQualifiedNameAsString();
    o["file"] = f;
    json::Array fs, bs;
    for (auto* fd : r->fields()) {
      json::Object x{{"n", fd->getNameAsString()}, {"t", type(fd->getType())}};
      if (fd->isMutable()) x["mut"] = true;
      if (fd->hasInClassInitializer()) if (auto* e = fd->getInClassInitializer()) x["init"] = expr(e);
      if (fd->isBitField()) x["bits"] = (int)fd->getBitWidthValue(C);
      fs.push_back(std::move(x));
    }
    if (auto* cx = dyn_cast<CXXRecordDecl>(r)) {
      for (auto& b : cx->bases()) bs.push_back(type(b.getType()));
      if (cx->isLambda()) o["lambda"] = true;
    }
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    records[recName(r)] = std::move(o);
  }

  std::string fref(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    auto it = fkeys.find(f);
    if (it != fkeys.end()) return it->second;
    std::string key = NG.getName(f);
    std::string q = f->getQualifiedNameAsString();
    if (key.empty()) key = q;
    // ctor/dtor: NG.getName may be ambiguous; add parameters.
    if (fdecls.get(key)) {
      // The same key from a different decl: disambiguate.
      key += "#" + std::to_string(fkeys.size());
    }
    fkeys[f] = key;
    json::Object o;
    o["q"] = q;
    o["n"] = f->getNameAsString();
    json::Array ps;
    for (auto* p : f->parameters()) ps.push_back(type(p->getType()));
    o["p"] = std::move(ps);
    o["r"] = type(f->getReturnType());
    if (f->isVariadic()) o["variadic"] = true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = recName(m->getParent());
      o["clsq"] = m->getParent()->getQualifiedNameAsString();
      o["clst"] = type(C.getRecordType(m->getParent()));
      if (m->isStatic()) o["static"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->isVirtual()) o["virtual"] = true;
      if (isa<CXXConstructorDecl>(f)) o["ctor"] = cast<CXXConstructorDecl>(f)->isCopyConstructor() ? "copy" : cast<CXXConstructorDecl>(f)->isMoveConstructor() ? "move" : cast<CXXConstructorDecl>(f)->isDefaultConstructor() ? "default" : "other";
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["assign"] = true;
      if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(f)) o["conv"] = true;
      json::Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(fref(b));
      if (!ov.empty()) o["over"] = std::move(ov);
      if (m->getParent()->isLambda()) o["lambda"] = true;
    }
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isImplicit()) o["implicit"] = true;
    if (auto* a = f->getTemplateSpecializationArgs()) o["a"] = targs(a->asArray());
    if (auto* pt = f->getType()->getAs<FunctionProtoType>())
      if (pt->canThrow() == CT_Cannot) o["noexcept"] = true;
    o["root"] = inRoot(f);
    fdecls[key] = std::move(o);
    // Make sure that the instantiated definitions get dumped.
    const FunctionDecl* def = nullptr;
    if (inRoot(f) && f->hasBody(def)) enqueue(def);
    return key;
  }
  std::vector<const FunctionDecl*> queue;
  std::set<const FunctionDecl*> queued;
  void enqueue(const FunctionDecl* d) {
    if (d->isDependentContext()) return;
    if (queued.insert(d).second) queue.push_back(d);
  }

  int var(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = var_ids.find(d);
    if (it != var_ids.end()) return it->second;
    int id = var_ids.size() + 1;
    return var_ids[d] = id;
  }

  void function(const FunctionDecl* f) {
    if (!done_funcs.insert(f).second) return;
    json::Object o;
    o["key"] = fref(f);
    o["file"] = fileOf(f->getLocation());
    o["line"] = lineOf(f->getBeginLoc());
    o["endline"] = lineOf(f->getEndLoc());
    json::Array ps;
    for (auto* p : f->parameters())
      ps.push_back(json::Object{{"v", var(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
    o["params"] = std::move(ps);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array is;
      for (auto* i : c->inits()) {
        json::Object x;
        if (i->isMemberInitializer()) x["f"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer()) x["b"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) x["del"] = true;
        else if (i->isIndirectMemberInitializer()) x["f"] = i->getIndirectMember()->getNameAsString();
        x["e"] = expr(i->getInit());
        is.push_back(std::move(x));
      }
      o["inits"] = std::move(is);
    }
    if (f->getBody()) o["body"] = stmt(f->getBody());
    functions.push_back(std::move(o));
  }

  json::Object unsupported(const char* k, SourceLocation l) {
    return json::Object{{"k", "Unsupported"}, {"cls", k}, {"l", lineOf(l)}};
  }

  json::Value vardecl(const VarDecl* v) {
    json::Object o{{"v", var(v)}, {"n", v->getNameAsString()}, {"t", type(v->getType())}};
    if (v->isStaticLocal()) o["static"] = true;
    if (v->hasInit()) o["init"] = expr(v->getInit());
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      for (auto* b : d->bindings()) {
        json::Object x{{"v", var(b)}, {"n", b->getNameAsString()}, {"t", type(b->getType())}};
        if (auto* hv = b->getHoldingVar()) x["hv"] = vardecl(hv);
        else if (b->getBinding()) x["e"] = expr(b->getBinding());
        bs.push_back(std::move(x));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

  json::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) {
      return json::Object{{"k", "Expr"}, {"e", expr(e)}, {"l", lineOf(s->getBeginLoc())}};
    }
    json::Object o;
    o["l"] = lineOf(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      json::Array a;
      for (auto* c : x->body()) a.push_back(stmt(c));
      o["k"] = "Compound"; o["b"] = std::move(a);
    } else if (auto* x = dyn_cast<DeclStmt>(s)) {
      json::Array a;
      for (auto* d : x->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
      }
      o["k"] = "Decl"; o["d"] = std::move(a);
    } else if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If";
      if (x->isConstexpr()) o["constexpr"] = true;
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
      o["c"] = expr(x->getCond()); o["then"] = stmt(x->getThen()); o["else"] = stmt(x->getElse());
    } else if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "While";
      if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
      o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "Do"; o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "For"; o["init"] = stmt(x->getInit());
      o["c"] = x->getCond() ? json::Value(expr(x->getCond())) : json::Value(nullptr);
      o["inc"] = x->getInc() ? json::Value(expr(x->getInc())) : json::Value(nullptr);
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "RangeFor";
      o["range"] = expr(x->getRangeInit());
      o["var"] = vardecl(x->getLoopVariable());
      o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "Return"; if (x->getRetValue()) o["e"] = expr(x->getRetValue());
    } else if (auto* x = dyn_cast<LabelStmt>(s)) {
      o["k"] = "Label"; o["label"] = x->getDecl()->getNameAsString(); o["s"] = stmt(x->getSubStmt());
    } else if (auto* x = dyn_cast<GotoStmt>(s)) {
      o["k"] = "Goto"; o["label"] = x->getLabel()->getNameAsString();
    } else if (isa<BreakStmt>(s)) { o["k"] = "Break";
    } else if (isa<ContinueStmt>(s)) { o["k"] = "Continue";
    } else if (isa<NullStmt>(s)) { o["k"] = "Null";
    } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "Switch";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "Case"; o["v"] = expr(x->getLHS()); o["s"] = stmt(x->getSubStmt());
    } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "Default"; o["s"] = stmt(x->getSubStmt());
    } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try"; o["body"] = stmt(x->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i);
        json::Object ho;
        if (h->getExceptionDecl()) ho["v"] = vardecl(h->getExceptionDecl());
        ho["t"] = type(h->getCaughtType()); ho["body"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
    } else if (auto* x = dyn_cast<AttributedStmt>(s)) { return stmt(x->getSubStmt());
    } else { return unsupported(s->getStmtClassName(), s->getBeginLoc()); }
    return o;
  }

  json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a; for (auto* e : r) a.push_back(expr(e)); return a;
  }

  json::Value expr(const Expr* e) {
    if (!e) return nullptr;
    // Transparent wrappers.
    if (auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    if (auto* x = dyn_cast<CXXFoldExpr>(e)) (void)x;
    json::Object o;
    o["t"] = type(e->getType());
    if (e->isGLValue()) o["lv"] = true;
    o["l"] = lineOf(e->getExprLoc());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      o["k"] = "Mat"; o["e"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["k"] = "Int"; o["v"] = s.str().str();
    } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      llvm::SmallString<64> s; 
      o["k"] = "Float"; o["v"] = x->getValueAsApproximateDouble();
      const char* b = SM.getCharacterData(x->getBeginLoc());
      (void)b; x->getValue().toString(s, 40, 40); o["s"] = s.str().str();
    } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue();
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "Null";
    } else if (auto* x = dyn_cast<StringLiteral>(e)) { o["k"] = "Str"; o["v"] = x->isOrdinary() ? json::fixUTF8(x->getString()) : std::string("?");
    } else if (auto* x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "Str"; o["v"] = "?pred"; (void)x;
    } else if (auto* x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "Int"; o["v"] = std::to_string(x->getValue());
    } else if (isa<CXXThisExpr>(e)) { o["k"] = "This";
    } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      auto* d = x->getDecl();
      if (auto* f = dyn_cast<FunctionDecl>(d)) { o["k"] = "Fn"; o["f"] = fref(f); }
      else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "Enum"; o["n"] = ec->getQualifiedNameAsString(); o["v"] = ec->getInitVal().getExtValue(); }
      else {
        o["k"] = "Var"; o["v"] = var(d); o["n"] = d->getNameAsString();
        if (auto* v = dyn_cast<VarDecl>(d)) {
          if (v->hasGlobalStorage() && !v->isStaticLocal()) {
            o["global"] = v->getQualifiedNameAsString();
            const VarDecl* dv = nullptr;
            const Expr* init = v->getAnyInitializer(dv);
            if (init && !init->isValueDependent() && (v->getType().isConstQualified() || v->isConstexpr())) {
              if (inRoot(v) || v->getType()->isArithmeticType()) {
                Expr::EvalResult r;
                if (v->getType()->isArithmeticType() && init->EvaluateAsRValue(r, C)) {
                  if (r.Val.isInt()) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["cv"] = s.str().str(); }
                  else if (r.Val.isFloat()) { llvm::SmallString<64> s; r.Val.getFloat().toString(s, 40, 40); o["cv"] = s.str().str(); }
                } else if (inRoot(v)) o["ginit"] = expr(init);
              }
            }
          }
          if (v->isInitCapture()) o["initcap"] = true;
        }
      }
    } else if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      o["k"] = "Member"; o["n"] = d->getNameAsString(); o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow();
      if (auto* f = dyn_cast<CXXMethodDecl>(d)) o["f"] = fref(f);
      else if (auto* fd = dyn_cast<FieldDecl>(d)) { o["cls"] = recName(fd->getParent()); if (fd->getType()->isReferenceType()) o["mref"] = true; }
      else if (auto* v = dyn_cast<VarDecl>(d)) { o["k"] = "Var"; o["v"] = var(v); o["global"] = v->getQualifiedNameAsString();
         Expr::EvalResult r; const Expr* init = v->getAnyInitializer();
         if (init && !init->isValueDependent() && v->getType().isConstQualified() && v->getType()->isArithmeticType() && init->EvaluateAsRValue(r, C) && r.Val.isInt()) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["cv"] = s.str().str(); }
      }
    } else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
      if (x->getCastKind() == CK_NoOp || x->getCastKind() == CK_FunctionToPointerDecay) return expr(x->getSubExpr());
      o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr());
      if (x->getConversionFunction()) o["f"] = fref(cast<FunctionDecl>(x->getConversionFunction()));
    } else if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
      o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); o["x"] = e->getStmtClassName();
    } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str() ; o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "CAssign"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
      o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); o["ct"] = type(x->getComputationLHSType());
    } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "Bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS());
    } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "Cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr());
    } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "Index"; o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx());
    } else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "MCall"; o["args"] = exprs(x->arguments());
      if (auto* m = x->getMethodDecl()) o["f"] = fref(m);
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { o["o"] = expr(me->getBase()); o["arrow"] = me->isArrow(); o["qual"] = me->hasQualifier(); }
      else o["callee"] = expr(x->getCallee());
    } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "OpCall"; o["op"] = getOperatorSpelling(x->getOperator()); o["args"] = exprs(x->arguments());
      if (auto* f = x->getDirectCallee()) { o["f"] = fref(f); if (isa<CXXMethodDecl>(f)) o["m"] = true; }
      else o["callee"] = expr(x->getCallee());
    } else if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call"; o["args"] = exprs(x->arguments());
      if (auto* f = x->getDirectCallee()) o["f"] = fref(f); else o["callee"] = expr(x->getCallee());
    } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "Ctor"; o["f"] = fref(x->getConstructor());
      json::Array a; for (auto* y : x->arguments()) a.push_back(expr(y));
      o["args"] = std::move(a); o["elide"] = x->isElidable(); o["list"] = x->isListInitialization(); o["stdinit"] = x->isStdInitListInitialization();
      if (isa<CXXTemporaryObjectExpr>(x)) o["temp"] = true;
    } else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "InhCtor"; o["f"] = fref(x->getConstructor());
    } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New"; o["at"] = type(x->getAllocatedType()); o["init"] = x->getInitializer() ? expr(x->getInitializer()) : json::Value(nullptr);
    } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "Delete"; o["e"] = expr(x->getArgument());
    } else if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"] = "InitList"; json::Array a;
      for (auto* y : x->inits()) a.push_back(expr(y));
      o["args"] = std::move(a);
      if (x->getNumInits() == 1 && x->isTransparent()) o["transparent"] = true;
    } else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { o["k"] = "StdInitList"; o["e"] = expr(x->getSubExpr());
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "ZeroInit";
    } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "Throw"; 
      if (x->getSubExpr()) { o["tt"] = type(x->getSubExpr()->getType()); o["e"] = expr(x->getSubExpr()); }
    } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda";
      json::Array caps;
      for (auto it = x->capture_begin(); it != x->capture_end(); ++it) {
        json::Object co;
        if (it->capturesThis()) co["this"] = true;
        else if (it->capturesVariable()) {
          co["v"] = var(it->getCapturedVar()); co["n"] = it->getCapturedVar()->getNameAsString(); co["byref"] = it->getCaptureKind() == LCK_ByRef;
          if (auto* vd = dyn_cast<VarDecl>(it->getCapturedVar())) if (vd->isInitCapture()) { co["initcap"] = vardecl(vd); }
        }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      json::Array ops;
      auto dumpOp = [&](const CXXMethodDecl* m) {
        json::Array ps;
        for (auto* p : m->parameters()) ps.push_back(json::Object{{"v", var(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
        ops.push_back(json::Object{{"key", fref(m)}, {"params", std::move(ps)}, {"r", type(m->getReturnType())}, {"body", stmt(m->getBody())}});
      };
      auto* cls = x->getLambdaClass();
      if (auto* ft = cls->getDependentLambdaCallOperator()) {
        for (auto* sp : ft->specializations()) if (auto* m = dyn_cast<CXXMethodDecl>(sp)) if (m->getBody()) dumpOp(m);
      } else dumpOp(x->getCallOperator());
      o["ops"] = std::move(ops);
    } else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, C)) { o["k"] = "Int"; o["v"] = std::to_string(r.Val.getInt().getExtValue()); }
      else return unsupported(e->getStmtClassName(), e->getExprLoc());
    } else if (auto* x = dyn_cast<TypeTraitExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue();
    } else if (auto* x = dyn_cast<CXXNoexceptExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue();
    } else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); return unsupported("Opaque", e->getExprLoc());
    } else if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "Typeid"; (void)x;
    } else if (auto* x = dyn_cast<SourceLocExpr>(e)) { o["k"] = "Str"; o["v"] = "?loc"; (void)x;
    } else if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e)) { o["k"] = "Unsupported"; (void)x;
    } else { return unsupported(e->getStmtClassName(), e->getExprLoc()); }
    return o;
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  Dumper& D;
  explicit V(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || !D.inRoot(f)) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    D.enqueue(f);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  std::string out;
  explicit Consumer(std::string o) : out(std::move(o)) {}
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "errors\n"; }
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    for (size_t i = 0; i < D.queue.size(); ++i) D.function(D.queue[i]);
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    json::Object o;
    o["errors"] = C.getDiagnostics().hasErrorOccurred();
    o["types"] = std::move(D.types);
    o["records"] = std::move(D.records);
    o["enums"] = std::move(D.enums);
    o["fdecls"] = std::move(D.fdecls);
    o["functions"] = std::move(D.functions);
    os << json::Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  std::string out;
  explicit Action(std::string o) : out(std::move(o)) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>(out);
  }
};

// usage: extract OUT.json SRC PREFIX[:PREFIX...] -- clang args
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  std::string out = argv[1], src = argv[2], pre = argv[3];
  size_t p = 0;
  while (p <= pre.size()) {
    size_t q = pre.find(':', p);
    if (q == std::string::npos) q = pre.size();
    g_prefix.push_back(pre.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> args;
  int i = 4;
  if (i < argc && std::string(argv[i]) == "--") ++i;
  for (; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  struct F : tooling::FrontendActionFactory {
    std::string o; explicit F(std::string s) : o(std::move(s)) {}
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(o); }
  } fac(out);
  return tool.run(&fac);
}
