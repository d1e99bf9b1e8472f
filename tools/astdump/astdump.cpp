// astdump: parse one translation unit of the real source tree with clang's own
// front end and write, as JSON, the bodies of selected functions (after
// template instantiation and overload resolution) together with every function
// of the source tree that they call, transitively.
//
// usage: astdump OUT.json ROOTPREFIX FUNCTION[,FUNCTION...] FILE -- CLANGARGS
//
// FUNCTION is a qualified name, optionally with template arguments
// ("Join::join<0,0,0>").  ROOTPREFIX: only bodies defined below it are
// exported (callees elsewhere appear as external names).
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Basic/Builtins.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <sstream>

using namespace clang;
namespace json = llvm::json;

static std::string gOut, gRoot;
static std::vector<std::string> gWanted;

static std::string nospace(const std::string& s) {
  std::string r;
  for (char c : s)
    if (c != ' ') r += c;
  return r;
}

struct Exporter {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> declIds;
  std::map<const FunctionDecl*, int> fnIds;
  std::vector<const FunctionDecl*> queue;
  json::Object fnsOut;
  std::map<const void*, int> typeIds;
  std::vector<json::Value> types;
  int nextDecl = 1;

  explicit Exporter(ASTContext& c)
      : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = false;
  }

  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    return declIds[d] = nextDecl++;
  }

  std::string locStr(SourceLocation l) {
    auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    if (p.isInvalid()) return "";
    return std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
  }
  int line(SourceLocation l) {
    auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    return p.isInvalid() ? 0 : (int)p.getLine();
  }

  bool inRoot(const Decl* d) {
    auto p = SM.getPresumedLoc(SM.getExpansionLoc(d->getLocation()));
    if (p.isInvalid()) return false;
    std::string f = p.getFilename();
    return f.compare(0, gRoot.size(), gRoot) == 0;
  }

  std::string targs(ArrayRef<TemplateArgument> as) {
    std::string s;
    llvm::raw_string_ostream os(s);
    bool first = true;
    for (auto& a : as) {
      if (a.getKind() == TemplateArgument::Pack) {
        for (auto& b : a.pack_elements()) {
          if (!first) os << ",";
          first = false;
          b.print(PP, os, false);
        }
        continue;
      }
      if (!first) os << ",";
      first = false;
      a.print(PP, os, false);
    }
    return nospace(os.str());
  }

  std::string qname(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    // build from contexts, omitting template args of classes
    std::vector<std::string> parts;
    parts.push_back(d->getNameAsString());
    if (isa<CXXConstructorDecl>(d)) parts.back() = "<ctor>";
    if (isa<CXXDestructorDecl>(d)) parts.back() = "<dtor>";
    if (isa<CXXConversionDecl>(d)) parts.back() = "<conv>";
    const DeclContext* dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (auto* n = dyn_cast<NamespaceDecl>(dc)) {
        if (!n->isInline() && !n->isAnonymousNamespace())
          parts.push_back(n->getNameAsString());
      } else if (auto* r = dyn_cast<RecordDecl>(dc)) {
        std::string nm = r->getNameAsString();
        if (auto* cr = dyn_cast<CXXRecordDecl>(r))
          if (cr->isLambda()) nm = "<lambda>";
        parts.push_back(nm.empty() ? "<anon>" : nm);
      } else if (auto* f = dyn_cast<FunctionDecl>(dc)) {
        parts.push_back(f->getNameAsString());
      }
      dc = dc->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (it != parts.rbegin()) os << "::";
      os << *it;
    }
    return os.str();
  }

  std::string fnTargs(const FunctionDecl* f) {
    std::string s;
    if (auto* ta = f->getTemplateSpecializationArgs())
      s = targs(ta->asArray());
    return s;
  }
  std::string classTargs(const FunctionDecl* f) {
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (auto* s =
              dyn_cast<ClassTemplateSpecializationDecl>(m->getParent()))
        return targs(s->getTemplateArgs().asArray());
    return "";
  }

  int type(QualType q) {
    if (q.isNull()) return -1;
    bool isConst = q.getCanonicalType().isConstQualified();
    QualType ct = q.getCanonicalType();
    const void* key = ct.getAsOpaquePtr();
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int tid = types.size();
    typeIds[key] = tid;
    types.push_back(nullptr);
    json::Object o;
    ct = ct.getUnqualifiedType();
    if (isConst) o["const"] = true;
    const Type* t = ct.getTypePtr();
    o["s"] = ct.getAsString(PP);
    if (auto* rt = dyn_cast<ReferenceType>(t)) {
      o["k"] = "ref";
      o["rv"] = isa<RValueReferenceType>(t);
      o["to"] = type(rt->getPointeeType());
    } else if (auto* pt = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["to"] = type(pt->getPointeeType());
    } else if (t->isBooleanType()) {
      o["k"] = "bool";
    } else if (auto* et = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["name"] = qname(et->getDecl());
      QualType it = et->getDecl()->getIntegerType();
      if (!it.isNull()) {
        o["w"] = (int64_t)C.getTypeSize(it);
        o["signed"] = it->isSignedIntegerType();
      }
    } else if (t->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)C.getTypeSize(ct);
      o["signed"] = t->isSignedIntegerType();
    } else if (t->isRealFloatingType()) {
      o["k"] = "float";
      o["w"] = (int64_t)C.getTypeSize(ct);
    } else if (t->isVoidType()) {
      o["k"] = "void";
    } else if (t->isNullPtrType()) {
      o["k"] = "nullptr";
    } else if (auto* at = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "array";
      o["n"] = (int64_t)at->getSize().getZExtValue();
      o["to"] = type(at->getElementType());
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
      o["k"] = "array";
      o["to"] = type(at->getElementType());
    } else if (auto* rt = dyn_cast<RecordType>(t)) {
      o["k"] = "rec";
      auto* rd = rt->getDecl();
      o["name"] = qname(rd);
      if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        json::Array a;
        for (auto& x : s->getTemplateArgs().asArray()) {
          if (x.getKind() == TemplateArgument::Type)
            a.push_back(json::Object{{"t", type(x.getAsType())}});
          else if (x.getKind() == TemplateArgument::Integral) {
            llvm::SmallString<32> str;
            x.getAsIntegral().toString(str, 10);
            a.push_back(json::Object{{"i", str.str().str()}});
          } else
            a.push_back(nullptr);
        }
        o["args"] = std::move(a);
        o["targs"] = targs(s->getTemplateArgs().asArray());
      }
      auto* cr = dyn_cast<CXXRecordDecl>(rd);
      if (cr && cr->isLambda()) {
        o["lambda"] = true;
        json::Array caps;
        for (auto& c : cr->captures()) {
          json::Object co;
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (c.capturesVariable()) {
            co["var"] = id(c.getCapturedVar());
            co["name"] = c.getCapturedVar()->getNameAsString();
          } else if (c.capturesThis())
            co["this"] = true;
          caps.push_back(std::move(co));
        }
        o["captures"] = std::move(caps);
      }
      rd = rd->getDefinition() ? rd->getDefinition() : rd;
      if (inRoot(rd) && rd->isCompleteDefinition()) {
        json::Array fs;
        for (auto* f : rd->fields())
          fs.push_back(json::Object{{"name", f->getNameAsString()},
                                    {"id", id(f)},
                                    {"t", type(f->getType())}});
        o["fields"] = std::move(fs);
        if (cr) {
          json::Array bs;
          for (auto& b : cr->bases()) bs.push_back(type(b.getType()));
          o["bases"] = std::move(bs);
        }
      }
    } else {
      o["k"] = "other";
    }
    types[tid] = std::move(o);
    return tid;
  }

  int fn(const FunctionDecl* f) {
    const FunctionDecl* c = f->getCanonicalDecl();
    auto it = fnIds.find(c);
    if (it != fnIds.end()) return it->second;
    int n = fnIds.size();
    fnIds[c] = n;
    queue.push_back(f);
    return n;
  }

  json::Object callee(const FunctionDecl* f) {
    json::Object o;
    o["q"] = qname(f);
    std::string ta = fnTargs(f);
    if (!ta.empty()) o["ta"] = ta;
    std::string ct = classTargs(f);
    if (!ct.empty()) o["cta"] = ct;
    o["f"] = fn(f);
    o["ret"] = type(f->getReturnType());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o["virtual"] = true;
      if (m->isStatic()) o["static"] = true;
    }
    json::Array ps;
    for (auto* p : f->parameters()) ps.push_back(type(p->getType()));
    o["pt"] = std::move(ps);
    return o;
  }

  json::Value expr(const Expr* e) {
    if (!e) return nullptr;
    // strip syntactic sugar
    while (true) {
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
      else break;
    }
    json::Object o;
    o["t"] = type(e->getType());
    o["l"] = line(e->getBeginLoc());
    if (e->isLValue()) o["lv"] = true;
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      o["k"] = "mat";
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      auto* d = x->getDecl();
      o["name"] = d->getNameAsString();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "enumc";
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
        o["q"] = qname(ec);
        return o;
      }
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fnref";
        o["c"] = callee(f);
        return o;
      }
      if (auto* bd = dyn_cast<BindingDecl>(d)) {
        o["k"] = "binding";
        o["id"] = id(bd);
        if (bd->getBinding()) o["e"] = expr(bd->getBinding());
        if (auto* hv = bd->getHoldingVar()) o["hold"] = id(hv);
        return o;
      }
      o["k"] = "var";
      o["id"] = id(d);
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (!v->isLocalVarDeclOrParm() || v->isStaticLocal()) {
          o["global"] = true;
          o["q"] = qname(v);
          // compile-time constants
          Expr::EvalResult r;
          if (!e->isValueDependent() && v->getType()->isIntegralOrEnumerationType() &&
              e->EvaluateAsInt(r, C)) {
            llvm::SmallString<32> s;
            r.Val.getInt().toString(s, 10);
            o["cv"] = s.str().str();
          } else if (v->hasInit() && v->getType().isConstQualified()) {
            o["init"] = expr(v->getInit());
          }
        } else if (v->isConstexpr()) {
          Expr::EvalResult r;
          if (v->getType()->isIntegralOrEnumerationType() &&
              e->EvaluateAsInt(r, C)) {
            llvm::SmallString<32> s;
            r.Val.getInt().toString(s, 10);
            o["cv"] = s.str().str();
          }
        }
      }
      return o;
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return o;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "bool";
      o["v"] = x->getValue();
      return o;
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int";
      o["v"] = std::to_string(x->getValue());
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "float";
      llvm::SmallString<64> s;
      x->getValue().toString(s, 0, 0);
      o["v"] = s.str().str();
      return o;
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      if (x->getCharByteWidth() == 1) {
        json::Array a;
        for (unsigned char c : x->getString()) a.push_back((int)c);
        o["v"] = std::move(a);
      }
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "nullptr";
      return o;
    }
    if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
      return o;
    }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C)) {
        o["k"] = "int";
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["v"] = s.str().str();
        return o;
      }
    }
    if (auto* x = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      o["e"] = expr(x->getSubExpr());
      if (isa<ExplicitCastExpr>(x)) o["explicit"] = true;
      if (auto* f = x->getConversionFunction())
        if (auto* ff = dyn_cast<FunctionDecl>(f)) o["conv"] = callee(ff);
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "opcall";
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto* f = x->getDirectCallee()) o["c"] = callee(f);
      json::Array a;
      for (auto* arg : x->arguments()) a.push_back(expr(arg));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "mcall";
      if (auto* f = x->getMethodDecl()) o["c"] = callee(f);
      o["b"] = expr(x->getImplicitObjectArgument());
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
        o["arrow"] = me->isArrow();
      json::Array a;
      for (auto* arg : x->arguments()) a.push_back(expr(arg));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto* f = x->getDirectCallee()) {
        o["c"] = callee(f);
      } else
        o["fe"] = expr(x->getCallee());
      json::Array a;
      for (auto* arg : x->arguments()) a.push_back(expr(arg));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      o["k"] = "mem";
      o["name"] = x->getMemberDecl()->getNameAsString();
      o["id"] = id(x->getMemberDecl());
      o["arrow"] = x->isArrow();
      if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["static"] = true;
        o["q"] = qname(v);
        Expr::EvalResult r;
        if (v->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, C)) {
          llvm::SmallString<32> s;
          r.Val.getInt().toString(s, 10);
          o["cv"] = s.str().str();
        }
      }
      o["b"] = expr(x->getBase());
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "sub";
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      return o;
    }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "cassign";
      o["op"] = BinaryOperator::getOpcodeStr(
                    BinaryOperator::getOpForCompoundAssignment(x->getOpcode()))
                    .str();
      o["ct"] = type(x->getComputationResultType());
      o["lct"] = type(x->getComputationLHSType());
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "assign" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "construct";
      o["c"] = callee(x->getConstructor());
      auto* cd = x->getConstructor();
      o["copy"] = cd->isCopyConstructor();
      o["move"] = cd->isMoveConstructor();
      o["default"] = cd->isDefaultConstructor();
      o["trivial"] = cd->isTrivial();
      o["list"] = x->isListInitialization();
      if (x->requiresZeroInitialization()) o["zero"] = true;
      json::Array a;
      for (auto* arg : x->arguments()) a.push_back(expr(arg));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "construct";
      o["c"] = callee(x->getConstructor());
      o["a"] = json::Array();
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm())
        x = x->getSemanticForm();
      o["k"] = "initlist";
      json::Array a;
      for (auto* i : x->inits()) a.push_back(expr(i));
      o["a"] = std::move(a);
      if (x->getArrayFiller()) o["filler"] = true;
      return o;
    }
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      o["k"] = "stdinit";
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      json::Array caps;
      auto ci = x->capture_init_begin();
      auto* cls = x->getLambdaClass();
      auto fi = cls->field_begin();
      for (auto& c : x->captures()) {
        json::Object co;
        co["byref"] = c.getCaptureKind() == LCK_ByRef;
        if (c.capturesVariable()) {
          co["var"] = id(c.getCapturedVar());
          co["name"] = c.getCapturedVar()->getNameAsString();
        }
        if (c.capturesThis()) co["this"] = true;
        if (*ci) co["init"] = expr(*ci);
        if (fi != cls->field_end()) { co["field"] = id(*fi); ++fi; }
        caps.push_back(std::move(co));
        ++ci;
      }
      o["captures"] = std::move(caps);
      if (auto* m = x->getCallOperator())
      {
        if (!x->isGenericLambda()) {
          o["c"] = callee(m);
        } else if (auto* ft = m->getDescribedFunctionTemplate()) {
          json::Array gc;
          for (auto* sp : ft->specializations()) gc.push_back(callee(sp));
          o["gc"] = std::move(gc);
        }
      }
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
      return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["at"] = type(x->getAllocatedType());
      if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize());
      if (x->getNumPlacementArgs() == 1) o["place"] = expr(x->getPlacementArg(0));
      if (x->getConstructExpr()) o["ce"] = expr(x->getConstructExpr());
      else if (x->getInitializer()) o["ce"] = expr(x->getInitializer());
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (auto* x = dyn_cast<SourceLocExpr>(e)) {
      o["k"] = "opaque";
      return o;
    }
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
      o["k"] = "arrcopy";
      o["e"] = expr(x->getCommonExpr()->getSourceExpr());
      return o;
    }
    if (auto* x = dyn_cast<StmtExpr>(e)) {
      o["k"] = "stmtexpr";
      return o;
    }
    // last resort: constant folding
    Expr::EvalResult r;
    if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() &&
        e->EvaluateAsInt(r, C)) {
      o["k"] = "int";
      llvm::SmallString<32> s;
      r.Val.getInt().toString(s, 10);
      o["v"] = s.str().str();
      return o;
    }
    o["k"] = "unsupported";
    o["cls"] = e->getStmtClassName();
    return o;
  }

  json::Value var(const VarDecl* v) {
    json::Object o;
    o["k"] = "vardecl";
    o["id"] = id(v);
    o["name"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["l"] = line(v->getLocation());
    if (v->isStaticLocal()) o["staticlocal"] = true;
    if (v->isConstexpr()) o["constexpr"] = true;
    if (v->hasInit()) o["init"] = expr(v->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      for (auto* b : dd->bindings()) {
        json::Object bo;
        bo["id"] = id(b);
        bo["name"] = b->getNameAsString();
        if (b->getBinding()) bo["e"] = expr(b->getBinding());
        if (auto* hv = b->getHoldingVar()) bo["hold"] = var(hv);
        bs.push_back(std::move(bo));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

  json::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) {
      json::Object o;
      o["k"] = "expr";
      o["l"] = line(s->getBeginLoc());
      o["e"] = expr(e);
      return o;
    }
    json::Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      json::Array a;
      for (auto* c : x->body()) a.push_back(stmt(c));
      o["a"] = std::move(a);
      o["el"] = line(x->getEndLoc());
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      if (x->isConstexpr()) {
        auto nd = const_cast<IfStmt*>(x)->getNondiscardedCase(C);
        if (nd.has_value()) {
          if (!*nd) {
            o["k"] = "block";
            o["a"] = json::Array();
            return o;
          }
          return stmt(*nd);
        }
      }
      o["k"] = "if";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (auto* v = x->getConditionVariable()) o["cv"] = var(v);
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      o["b"] = stmt(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      o["c"] = expr(x->getCond());
      if (auto* v = x->getConditionVariable()) o["cv"] = var(v);
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rangefor";
      o["range"] = expr(x->getRangeInit());
      o["var"] = var(x->getLoopVariable());
      o["body"] = stmt(x->getBody());
      o["rangedecl"] = stmt(x->getRangeStmt());
      o["begin"] = stmt(x->getBeginStmt());
      o["end"] = stmt(x->getEndStmt());
      o["cond"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = expr(x->getLHS());
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (isa<BreakStmt>(s)) {
      o["k"] = "break";
      return o;
    }
    if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
      return o;
    }
    if (isa<NullStmt>(s)) {
      o["k"] = "block";
      o["a"] = json::Array();
      return o;
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      o["e"] = expr(x->getRetValue());
      return o;
    }
    if (auto* x = dyn_cast<GotoStmt>(s)) {
      o["k"] = "goto";
      o["to"] = x->getLabel()->getNameAsString();
      return o;
    }
    if (auto* x = dyn_cast<LabelStmt>(s)) {
      o["k"] = "label";
      o["name"] = x->getName();
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["body"] = stmt(x->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        json::Object h;
        auto* c = x->getHandler(i);
        h["body"] = stmt(c->getHandlerBlock());
        if (c->getExceptionDecl()) h["var"] = var(c->getExceptionDecl());
        hs.push_back(std::move(h));
      }
      o["handlers"] = std::move(hs);
      return o;
    }
    o["k"] = "unsupported";
    o["cls"] = s->getStmtClassName();
    return o;
  }

  json::Value function(const FunctionDecl* f) {
    json::Object o;
    o["q"] = qname(f);
    o["ta"] = fnTargs(f);
    o["cta"] = classTargs(f);
    o["ret"] = type(f->getReturnType());
    o["loc"] = locStr(f->getLocation());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["static"] = m->isStatic();
      if (!m->isStatic()) o["this"] = type(m->getThisType()->getPointeeType());
      if (m->getParent()->isLambda()) o["lambda"] = true;
    }
    const FunctionDecl* def = nullptr;
    bool has = f->hasBody(def);
    const FunctionDecl* src = has ? def : f;
    json::Array ps;
    for (auto* p : src->parameters()) {
      json::Object po;
      po["id"] = id(p);
      po["name"] = p->getNameAsString();
      po["t"] = type(p->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    bool want = has && (inRoot(def));
    if (want) {
      o["loc"] = locStr(def->getLocation());
      o["endline"] = line(def->getEndLoc());
      o["invalid"] = def->isInvalidDecl();
      if (auto* c = dyn_cast<CXXConstructorDecl>(def)) {
        json::Array is;
        for (auto* i : c->inits()) {
          json::Object io;
          if (i->isAnyMemberInitializer()) {
            io["field"] = i->getAnyMember()->getNameAsString();
            io["ft"] = type(i->getAnyMember()->getType());
          } else if (i->isBaseInitializer())
            io["base"] = type(QualType(i->getBaseClass(), 0));
          else if (i->isDelegatingInitializer())
            io["deleg"] = true;
          io["e"] = expr(i->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
      o["body"] = stmt(def->getBody());
    }
    if (auto* c = dyn_cast<CXXMethodDecl>(src))
      if (c->isDefaulted()) o["defaulted"] = true;
    return o;
  }
};

struct Finder : RecursiveASTVisitor<Finder> {
  Exporter& X;
  std::vector<std::pair<std::string, const FunctionDecl*>> found;
  explicit Finder(Exporter& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->getIdentifier() && !isa<CXXMethodDecl>(f) && !f->isOverloadedOperator()) return true;
    if (f->isDependentContext()) return true;
    const FunctionDecl* def = nullptr;
    if (!f->hasBody(def) || def != f) return true;
    std::string q = X.qname(f);
    for (auto& w : gWanted) {
      std::string base = w.substr(0, w.find('<') == 0 ? std::string::npos : w.find('<', w.find("operator<") == std::string::npos ? 0 : w.size()));
      // "<ctor>" style names contain '<' directly after "::"
      size_t pos = w.find('<');
      while (pos != std::string::npos && pos >= 2 && w[pos - 1] == ':')
        pos = w.find('<', pos + 1);
      if (w.find("::operator<") != std::string::npos) pos = std::string::npos;
      base = w.substr(0, pos);
      if (base != q) continue;
      if (pos != std::string::npos) {
        std::string full = base + "<" + X.fnTargs(f) + ">";
        if (nospace(w) != full) continue;
      }
      found.push_back({w, f});
    }
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    Exporter X(C);
    Finder F(X);
    F.TraverseDecl(C.getTranslationUnitDecl());
    json::Object out;
    json::Array roots;
    for (auto& p : F.found)
      roots.push_back(json::Object{{"want", p.first}, {"f", X.fn(p.second)}});
    out["roots"] = std::move(roots);
    json::Object fns;
    for (size_t i = 0; i < X.queue.size(); ++i) {
      const FunctionDecl* f = X.queue[i];
      int n = X.fn(f);
      fns[std::to_string(n)] = X.function(f);
    }
    out["fns"] = std::move(fns);
    json::Array ts;
    for (auto& t : X.types) ts.push_back(std::move(t));
    out["types"] = std::move(ts);
    out["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(out));
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI,
                                                 StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char** argv) {
  if (argc < 6) return 2;
  gOut = argv[1];
  gRoot = argv[2];
  std::stringstream ss(argv[3]);
  std::string w;
  while (std::getline(ss, w, ';')) gWanted.push_back(w);
  std::string file = argv[4];
  int n = argc - 5;
  const char** rest = argv + 5;
  std::string err;
  auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(n, rest, err);
  if (!db) {
    llvm::errs() << err << "\n";
    return 2;
  }
  tooling::ClangTool tool(*db, {file});
  tool.run(tooling::newFrontendActionFactory<Action>().get());
  return 0;
}
