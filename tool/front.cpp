// Frontend of the /verif checkers: parses one translation unit with clang and
// writes the resolved syntax tree of every function defined under the given
// roots, as JSON (callees, types, implicit conversions, template instances).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static int Errors = 0;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Object types;
  std::map<std::string, bool> typeSeen;
  json::Array functions, records;
  std::set<const void *> seenRec, seenFn;
  json::Object globals;
  std::map<const ValueDecl *, int> localIds;
  int nextLocal = 0;
  std::vector<const CXXRecordDecl *> recQueue;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.TerseOutput = true;
    PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true;
    PP.SuppressDefaultTemplateArgs = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  // -------- types
  std::string type(QualType T) {
    T = T.getCanonicalType();
    bool cst = T.isConstQualified();
    QualType U = T.getUnqualifiedType();
    std::string n = U.getAsString(PP);
    std::string key = n;
    (void)cst;
    if (typeSeen.count(key)) return key;
    typeSeen[key] = true;
    json::Object o;
    const Type *t = U.getTypePtr();
    if (t->isDependentType()) {
      o["k"] = "dep";
    } else if (t->isBooleanType()) {
      o["k"] = "bool";
    } else if (auto *E = t->getAs<EnumType>()) {
      o["k"] = "enum";
      json::Array vs;
      for (auto *e : E->getDecl()->enumerators()) {
        json::Array p;
        p.push_back(e->getNameAsString());
        p.push_back(e->getInitVal().getExtValue());
        vs.push_back(std::move(p));
      }
      o["vals"] = std::move(vs);
      o["w"] = (int64_t)C.getTypeSize(U);
      o["s"] = E->getDecl()->getIntegerType().isNull() ? false : E->getDecl()->getIntegerType()->isSignedIntegerType();
    } else if (t->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)C.getTypeSize(U);
      o["s"] = t->isSignedIntegerType();
    } else if (t->isFloatingType()) {
      o["k"] = "float";
      o["w"] = (int64_t)C.getTypeSize(U);
    } else if (t->isVoidType()) {
      o["k"] = "void";
    } else if (t->isReferenceType()) {
      o["k"] = "ref";
      o["rv"] = t->isRValueReferenceType();
      o["const"] = t->getPointeeType().isConstQualified();
      o["to"] = type(t->getPointeeType());
    } else if (t->isMemberPointerType()) {
      o["k"] = "memptr";
    } else if (t->isPointerType()) {
      o["k"] = "ptr";
      o["const"] = t->getPointeeType().isConstQualified();
      o["to"] = type(t->getPointeeType());
    } else if (auto *A = C.getAsConstantArrayType(U)) {
      o["k"] = "arr";
      o["n"] = (int64_t)A->getSize().getZExtValue();
      o["to"] = type(A->getElementType());
    } else if (auto *A = C.getAsArrayType(U)) {
      o["k"] = "arr";
      o["to"] = type(A->getElementType());
    } else if (auto *R = t->getAs<RecordType>()) {
      o["k"] = "rec";
      if (auto *RD = dyn_cast<CXXRecordDecl>(R->getDecl())) {
        o["base"] = recName(RD);
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
          json::Array as;
          for (auto &a : S->getTemplateArgs().asArray()) {
            if (a.getKind() == TemplateArgument::Type) as.push_back(type(a.getAsType()));
            else if (a.getKind() == TemplateArgument::Integral) as.push_back(a.getAsIntegral().getExtValue());
            else as.push_back(nullptr);
          }
          o["args"] = std::move(as);
          o["tmpl"] = S->getSpecializedTemplate()->getQualifiedNameAsString();
        }
        if (RD->isLambda()) o["lambda"] = true;
        if (RD->hasDefinition()) recQueue.push_back(RD->getDefinition());
      }
    } else if (t->isFunctionType()) {
      o["k"] = "fn";
    } else if (t->isNullPtrType()) {
      o["k"] = "nullptr";
    } else {
      o["k"] = "other";
      o["cls"] = t->getTypeClassName();
    }
    if (!U->isIncompleteType() && !t->isDependentType() && !t->isFunctionType() && !t->isReferenceType() && !t->isVoidType() && !t->isUndeducedType())
      o["size"] = (int64_t)C.getTypeSizeInChars(U).getQuantity();
    types[key] = std::move(o);
    return key;
  }

  std::string recName(const CXXRecordDecl *R) {
    if (R->isLambda()) {
      return "lambda@" + fileOf(R->getLocation()) + ":" + std::to_string(SM.getExpansionLineNumber(R->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(R->getLocation()));
    }
    return C.getRecordType(R).getCanonicalType().getUnqualifiedType().getAsString(PP);
  }

  std::string qname(const NamedDecl *D) {
    // qualified name, with the template arguments of enclosing records
    std::string s;
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        s = recName(M->getParent()) + "::";
        if (isa<CXXConstructorDecl>(M)) return s + "#ctor";
        if (isa<CXXDestructorDecl>(M)) return s + "#dtor";
        return s + M->getNameAsString();
      }
    }
    if (auto *V = dyn_cast<ValueDecl>(D))
      if (auto *R = dyn_cast<CXXRecordDecl>(V->getDeclContext()))
        return recName(R) + "::" + D->getNameAsString();
    return D->getQualifiedNameAsString();
  }
  std::string plainName(const FunctionDecl *F) { // no template arguments
    if (isa<CXXConstructorDecl>(F)) return cast<CXXMethodDecl>(F)->getParent()->getQualifiedNameAsString() + "::#ctor";
    if (isa<CXXDestructorDecl>(F)) return cast<CXXMethodDecl>(F)->getParent()->getQualifiedNameAsString() + "::#dtor";
    std::string s;
    llvm::raw_string_ostream os(s);
    F->printQualifiedName(os, PP);
    return os.str();
  }
  std::string fid(const FunctionDecl *F) {
    std::string s = qname(F);
    if (F->getFormalLinkage() == Linkage::Internal || !F->isExternallyVisible()) s += "@" + fileOf(F->getLocation());
    if (F->getTemplateSpecializationArgs()) {
      s += "<";
      for (auto &a : F->getTemplateSpecializationArgs()->asArray()) {
        if (a.getKind() == TemplateArgument::Type) s += type(a.getAsType());
        else if (a.getKind() == TemplateArgument::Integral) s += std::to_string(a.getAsIntegral().getExtValue());
        else s += "?";
        s += ";";
      }
      s += ">";
    }
    s += "(";
    bool first = true;
    for (auto *p : F->parameters()) {
      if (!first) s += ", ";
      first = false;
      s += p->getType().getCanonicalType().getUnqualifiedType().getAsString(PP);
    }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) s += " const";
    return s;
  }

  int localId(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = localIds.find(D);
    if (it != localIds.end()) return it->second;
    return localIds[D] = ++nextLocal;
  }

  bool deepRef(const Expr *E) { return false; }

  // -------- expressions
  json::Object mk(const char *k, const Expr *E) {
    json::Object o;
    o["k"] = k;
    if (E) {
      o["t"] = type(E->getType());
      if (E->isGLValue()) o["lv"] = true;
      o["l"] = (int64_t)lineOf(E->getExprLoc());
    }
    return o;
  }
  json::Object unsup(const char *what, const Expr *E) {
    json::Object o = mk("unsup", E);
    o["what"] = what;
    return o;
  }

  json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (auto *e : r) a.push_back(expr(e));
    return a;
  }

  void putCallee(json::Object &o, const FunctionDecl *F) {
    o["fn"] = plainName(F);
    o["fid"] = fid(F);
    const FunctionDecl *Def = nullptr;
    if (F->isDefined(Def) && Def && inRoots(Def->getLocation())) o["repo"] = true;
    else if (inRoots(F->getLocation())) o["repo"] = true;
    if (F->isNoReturn()) o["noret"] = true;
    json::Array ps;
    for (auto *p : F->parameters()) ps.push_back(type(p->getType()));
    o["pt"] = std::move(ps);
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      if (M->isConst()) o["cm"] = true;
      if (M->isStatic()) o["static"] = true;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) o["ctmpl"] = S->getSpecializedTemplate()->getQualifiedNameAsString();
      else o["ctmpl"] = M->getParent()->getQualifiedNameAsString();
      o["mname"] = isa<CXXConstructorDecl>(M) ? "#ctor" : isa<CXXDestructorDecl>(M) ? "#dtor" : M->getNameAsString();
    }
  }

  json::Object constInt(const Expr *E, const llvm::APSInt &v) {
    json::Object o = mk("int", E);
    llvm::SmallString<40> s;
    v.toString(s, 10);
    o["v"] = s.str().str();
    return o;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      json::Object o = mk("temp", E);
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      json::Object o = mk("stdinit", E);
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) return constInt(E, llvm::APSInt(X->getValue(), !E->getType()->isSignedIntegerType()));
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      json::Object o = mk("int", E);
      o["v"] = std::to_string((int)X->getValue());
      return o;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      json::Object o = mk("int", E);
      o["v"] = X->getValue() ? "1" : "0";
      return o;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      json::Object o = mk("float", E);
      llvm::SmallString<40> s;
      X->getValue().toString(s);
      o["v"] = s.str().str();
      return o;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      json::Object o = mk("str", E);
      if (X->getCharByteWidth() == 1) {
        json::Array b;
        for (unsigned char c : X->getString()) b.push_back((int64_t)c);
        o["bytes"] = std::move(b);
      }
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null", E);
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) return constInt(E, R.Val.getInt());
      return unsup("sizeof", E);
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        json::Object o = constInt(E, EC->getInitVal());
        o["en"] = EC->getNameAsString();
        return o;
      }
      json::Object o = mk("ref", E);
      o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["dk"] = "func";
        putCallee(o, F);
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          o["dk"] = "global";
          std::string q = qname(V);
          if (V->isStaticLocal()) q = "static:" + std::to_string(localId(V)) + ":" + q;
          o["q"] = q;
          o["d"] = localId(V);
          if (inRoots(V->getLocation())) {
            o["repo"] = true;
            dumpGlobal(V, q);
          }
          // constant value
          if (V->getType()->isIntegralOrEnumerationType() && V->getType().isConstQualified()) {
            Expr::EvalResult R;
            if (V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent() && V->getAnyInitializer()->EvaluateAsInt(R, C)) {
              llvm::SmallString<40> s;
              R.Val.getInt().toString(s, 10);
              o["cv"] = s.str().str();
            }
          }
          return o;
        }
        o["dk"] = isa<ParmVarDecl>(V) ? "param" : "var";
        o["d"] = localId(V);
        o["dt"] = type(V->getType());
        if (X->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        return o;
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        o["dk"] = "binding";
        o["d"] = localId(B);
        return o;
      }
      o["dk"] = "other";
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        json::Object o = mk("ref", E);
        o["n"] = D->getNameAsString();
        o["dk"] = "global";
        std::string q = qname(V);
        o["q"] = q;
        if (V->getType()->isIntegralOrEnumerationType() && V->getType().isConstQualified()) {
          Expr::EvalResult R;
          if (V->getAnyInitializer() && V->getAnyInitializer()->EvaluateAsInt(R, C)) {
            llvm::SmallString<40> s;
            R.Val.getInt().toString(s, 10);
            o["cv"] = s.str().str();
          }
        }
        return o;
      }
      json::Object o = mk("mem", E);
      o["o"] = expr(X->getBase());
      if (X->isArrow()) o["arrow"] = true;
      o["f"] = D->getNameAsString();
      if (auto *R = dyn_cast<CXXRecordDecl>(D->getDeclContext())) o["fc"] = recName(R);
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      json::Object o = mk("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix();
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      json::Object o = mk("cassign", E);
      std::string op = X->getOpcodeStr().str();
      o["op"] = op.substr(0, op.size() - 1);
      o["a"] = expr(X->getLHS());
      o["b"] = expr(X->getRHS());
      o["ct"] = type(X->getComputationResultType());
      o["clt"] = type(X->getComputationLHSType());
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      json::Object o = mk(X->getOpcode() == BO_Assign ? "assign" : "bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS());
      o["b"] = expr(X->getRHS());
      return o;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      json::Object o = mk("cond", E);
      o["c"] = expr(X->getCond());
      o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr());
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      json::Object o = mk("sub", E);
      o["a"] = expr(X->getBase());
      o["i"] = expr(X->getIdx());
      return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      json::Object o = mk("lambda", E);
      o["cls"] = recName(X->getLambdaClass());
      json::Array cs;
      auto init = X->capture_init_begin();
      for (auto &c : X->captures()) {
        json::Object co;
        co["this"] = c.capturesThis();
        if (c.capturesVariable()) {
          co["d"] = localId(cast<ValueDecl>(c.getCapturedVar()));
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (c.getCapturedVar()->isInitCapture()) {
            co["init"] = expr(cast<VarDecl>(c.getCapturedVar())->getInit());
          }
        }
        ++init;
        cs.push_back(std::move(co));
      }
      o["caps"] = std::move(cs);
      const CXXMethodDecl *M = X->getCallOperator();
      json::Array ps;
      for (auto *p : M->parameters()) {
        json::Object po;
        po["n"] = p->getNameAsString();
        po["d"] = localId(p);
        po["t"] = type(p->getType());
        ps.push_back(std::move(po));
      }
      o["params"] = std::move(ps);
      o["ret"] = type(M->getReturnType());
      if (!X->isGenericLambda()) o["body"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *K = X->getConstructor();
      if (X->isElidable() && X->getNumArgs() >= 1) return expr(X->getArg(0));
      json::Object o = mk("ctor", E);
      putCallee(o, K);
      o["copy"] = K->isCopyOrMoveConstructor();
      o["move"] = K->isMoveConstructor();
      o["dflt"] = K->isDefaultConstructor();
      o["impl"] = K->isImplicit() || K->isDefaulted();
      o["trivial"] = K->isTrivial();
      o["zero"] = X->requiresZeroInitialization();
      json::Array a;
      for (auto *e : X->arguments()) a.push_back(expr(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      json::Object o = mk("new", E);
      o["et"] = type(X->getAllocatedType());
      o["arr"] = X->isArray();
      if (X->isArray()) o["n"] = X->getArraySize() ? expr(*X->getArraySize()) : json::Value(nullptr);
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
      bool nt = false;
      if (X->getNumPlacementArgs() == 1 && X->getPlacementArg(0)->getType().getAsString().find("nothrow") != std::string::npos) nt = true;
      else if (X->getNumPlacementArgs()) return unsup("placement new", E);
      o["nothrow"] = nt;
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      json::Object o = mk("del", E);
      o["arr"] = X->isArrayForm();
      o["e"] = expr(X->getArgument());
      o["dt"] = type(X->getDestroyedType());
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      json::Object o = mk("throw", E);
      if (X->getSubExpr()) {
        o["e"] = expr(X->getSubExpr());
        o["tt"] = type(X->getSubExpr()->getType());
      }
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      json::Object o = mk("ilist", E);
      json::Array a;
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      for (auto *e : S->inits()) a.push_back(expr(e));
      o["es"] = std::move(a);
      if (S->hasArrayFiller()) o["fill"] = expr(S->getArrayFiller());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("zero", E);
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { (void)X; return unsup("inherited ctor", E); }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      if (X->getFunctionName()) return expr(X->getFunctionName());
      return unsup("predefined", E);
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { (void)X; return unsup("typeid", E); }
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) {
      json::Object o = mk("int", E);
      o["v"] = X->getValue() ? "1" : "0";
      return o;
    }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) {
      json::Object o = mk("int", E);
      o["v"] = X->getValue() ? "1" : "0";
      return o;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_NoOp:
      case CK_FunctionToPointerDecay:
      case CK_BuiltinFnToFnPtr:
        return expr(X->getSubExpr());
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
        return expr(X->getSubExpr());
      default:
        break;
      }
      json::Object o = mk("cast", E);
      o["ck"] = X->getCastKindName();
      o["e"] = expr(X->getSubExpr());
      o["expl"] = isa<ExplicitCastExpr>(X);
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Object o = mk("call", E);
      const FunctionDecl *F = X->getDirectCallee();
      if (!F) return unsup("indirect operator", E);
      putCallee(o, F);
      auto as = X->arguments();
      auto it = as.begin();
      if (isa<CXXMethodDecl>(F) && it != as.end()) {
        o["o"] = expr(*it);
        ++it;
        if (cast<CXXMethodDecl>(F)->isVirtual()) o["virt"] = true;
      }
      json::Array a;
      for (; it != as.end(); ++it) a.push_back(expr(*it));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *M = X->getMethodDecl();
      if (!M) return unsup("member pointer call", E);
      json::Object o = mk("call", E);
      putCallee(o, M);
      const Expr *cal = X->getCallee()->IgnoreParens();
      bool qual = false, arrow = false;
      if (auto *ME = dyn_cast<MemberExpr>(cal)) {
        qual = ME->hasQualifier();
        arrow = ME->isArrow();
        o["o"] = expr(ME->getBase());
      } else
        o["o"] = expr(X->getImplicitObjectArgument());
      if (arrow) o["arrow"] = true;
      if (M->isVirtual() && !qual) o["virt"] = true;
      o["args"] = args(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *F = X->getDirectCallee();
      json::Object o = mk("call", E);
      if (F) {
        putCallee(o, F);
      } else {
        o["k"] = "icall";
        o["f"] = expr(X->getCallee());
      }
      o["args"] = args(X->arguments());
      return o;
    }
    return unsup(E->getStmtClassName(), E);
  }

  void dumpGlobal(const VarDecl *V, const std::string &q) {
    if (globals.find(q) != globals.end()) return;
    globals[q] = nullptr;
    json::Object g;
    g["t"] = type(V->getType());
    g["const"] = V->getType().isConstQualified() || V->isConstexpr();
    g["line"] = (int64_t)lineOf(V->getLocation());
    g["file"] = fileOf(V->getLocation());
    if (V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent()) g["init"] = expr(V->getAnyInitializer());
    globals[q] = std::move(g);
  }

  // -------- statements
  json::Object ms(const char *k, const Stmt *S) {
    json::Object o;
    o["k"] = k;
    if (S) o["l"] = (int64_t)lineOf(S->getBeginLoc());
    return o;
  }

  json::Object varDecl(const VarDecl *V) {
    json::Object o;
    o["d"] = localId(V);
    o["n"] = V->getNameAsString();
    o["t"] = type(V->getType());
    o["l"] = (int64_t)lineOf(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit()) {
      o["init"] = expr(V->getInit());
      o["cinit"] = V->getInitStyle() == VarDecl::CInit;
    }
    return o;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      json::Object o = ms("block", S);
      json::Array a;
      for (auto *s : X->body()) a.push_back(stmt(s));
      o["ss"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      json::Object o = ms("decl", S);
      json::Array a;
      for (auto *d : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) {
          if (isa<DecompositionDecl>(d)) { a.push_back(unsup("decomposition", nullptr)); continue; }
          a.push_back(varDecl(V));
        }
      }
      o["vs"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      json::Object o = ms("if", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["c"] = expr(X->getCond());
      o["a"] = stmt(X->getThen());
      if (X->getElse()) o["b"] = stmt(X->getElse());
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      json::Object o = ms("for", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      if (X->getCond()) o["c"] = expr(X->getCond());
      if (X->getInc()) o["inc"] = expr(X->getInc());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      json::Object o = ms("while", S);
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      json::Object o = ms("do", S);
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object o = ms("range", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      o["r"] = expr(X->getRangeInit());
      o["v"] = varDecl(X->getLoopVariable());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      json::Object o = ms("switch", S);
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      json::Object o = ms("case", S);
      o["v"] = expr(X->getLHS());
      if (X->getRHS()) o["v2"] = expr(X->getRHS());
      o["s"] = stmt(X->getSubStmt());
      return o;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      json::Object o = ms("default", S);
      o["s"] = stmt(X->getSubStmt());
      return o;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      json::Object o = ms("return", S);
      if (X->getRetValue()) o["e"] = expr(X->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S)) return ms("break", S);
    if (isa<ContinueStmt>(S)) return ms("continue", S);
    if (isa<NullStmt>(S)) return ms("nop", S);
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      json::Object o = ms("try", S);
      o["b"] = stmt(X->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        const CXXCatchStmt *H = X->getHandler(i);
        json::Object h = ms("catch", H);
        if (H->getExceptionDecl()) {
          h["t"] = type(H->getCaughtType());
          h["d"] = localId(H->getExceptionDecl());
          h["n"] = H->getExceptionDecl()->getNameAsString();
        }
        h["b"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["hs"] = std::move(hs);
      return o;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { (void)X; json::Object o = ms("unsups", S); o["what"] = "label"; return o; }
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object o = ms("expr", S);
      o["e"] = expr(E);
      return o;
    }
    json::Object o = ms("unsups", S);
    o["what"] = S->getStmtClassName();
    return o;
  }

  // -------- declarations
  void function(const FunctionDecl *F) {
    if (F->isDependentContext() || F->isDeleted()) return;
    if (!F->doesThisDeclarationHaveABody() && !(F->isDefaulted())) return;
    if (!inRoots(F->getLocation())) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return;
    if (!seenFn.insert(F->getCanonicalDecl()).second) return;
    json::Object o;
    o["fid"] = fid(F);
    o["fn"] = plainName(F);
    o["name"] = F->getNameAsString();
    o["file"] = fileOf(F->getLocation());
    o["line"] = (int64_t)lineOf(F->getLocation());
    o["ret"] = type(F->getReturnType());
    o["impl"] = F->isImplicit() || F->isDefaulted();
    if (F->isNoReturn()) o["noret"] = true;
    json::Array ps;
    for (auto *p : F->parameters()) {
      json::Object po;
      po["n"] = p->getNameAsString();
      po["d"] = localId(p);
      po["t"] = type(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      o["virt"] = M->isVirtual();
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      o["access"] = (int64_t)M->getAccess();
      json::Array ov;
      for (auto *b : M->overridden_methods()) ov.push_back(fid(b));
      o["over"] = std::move(ov);
      recQueue.push_back(M->getParent());
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["kind"] = "ctor";
      o["copy"] = K->isCopyOrMoveConstructor();
      json::Array in;
      for (auto *I : K->inits()) {
        json::Object io;
        if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        else if (I->isMemberInitializer()) io["field"] = I->getMember()->getNameAsString();
        else if (I->isIndirectMemberInitializer()) io["unsup"] = true;
        io["written"] = I->isWritten();
        io["l"] = (int64_t)lineOf(I->getSourceLocation());
        io["e"] = expr(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    } else if (isa<CXXDestructorDecl>(F))
      o["kind"] = "dtor";
    else
      o["kind"] = "fn";
    if (F->getBody()) o["body"] = stmt(F->getBody());
    o["internal"] = !F->isExternallyVisible();
    functions.push_back(std::move(o));
  }

  void record(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isDependentContext() || R->isLambda()) return;
    if (!seenRec.insert(R).second) return;
    bool mine = inRoots(R->getLocation());
    if (!mine) return;
    json::Object o;
    o["n"] = recName(R);
    o["file"] = fileOf(R->getLocation());
    o["line"] = (int64_t)lineOf(R->getLocation());
    o["abstract"] = R->isAbstract();
    json::Array fs, bs, ms_;
    for (auto *f : R->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = type(f->getType());
      fo["l"] = (int64_t)lineOf(f->getLocation());
      fo["access"] = (int64_t)f->getAccess();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    for (auto &b : R->bases()) bs.push_back(type(b.getType()));
    for (auto *m : R->methods()) {
      json::Object mo;
      mo["fid"] = fid(m);
      mo["fn"] = plainName(m);
      mo["n"] = m->getNameAsString();
      mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["access"] = (int64_t)m->getAccess();
      mo["impl"] = m->isImplicit();
      mo["deleted"] = m->isDeleted();
      mo["defaulted"] = m->isDefaulted();
      mo["static"] = m->isStatic();
      mo["const"] = m->isConst();
      mo["l"] = (int64_t)lineOf(m->getLocation());
      mo["kind"] = isa<CXXConstructorDecl>(m) ? "ctor" : isa<CXXDestructorDecl>(m) ? "dtor" : "fn";
      if (auto *k = dyn_cast<CXXConstructorDecl>(m)) {
        mo["copy"] = k->isCopyConstructor();
        mo["move"] = k->isMoveConstructor();
        mo["dflt"] = k->isDefaultConstructor();
      }
      mo["cassign"] = m->isCopyAssignmentOperator();
      mo["massign"] = m->isMoveAssignmentOperator();
      json::Array ov;
      for (auto *b : m->overridden_methods()) ov.push_back(fid(b));
      mo["over"] = std::move(ov);
      ms_.push_back(std::move(mo));
    }
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    o["methods"] = std::move(ms_);
    o["needsCopy"] = R->needsImplicitCopyConstructor();
    o["copyDeleted"] = R->defaultedCopyConstructorIsDeleted();
    o["userCopy"] = R->hasUserDeclaredCopyConstructor();
    o["userCopyAssign"] = R->hasUserDeclaredCopyAssignment();
    o["userDtor"] = R->hasUserDeclaredDestructor();
    records.push_back(std::move(o));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D;
  Visitor(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition()) D.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition()) D.record(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->getType()->isDependentType() && !V->getDeclContext()->isDependentContext() && D.inRoots(V->getLocation()) && !V->isStaticLocal()) D.dumpGlobal(V, D.qname(V));
    return true;
  }
};

static std::string OutPath;

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred()) { Errors++; return; }
    Dumper D(Ctx);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    while (!D.recQueue.empty()) {
      auto *R = D.recQueue.back();
      D.recQueue.pop_back();
      D.record(R);
    }
    json::Object top;
    top["functions"] = std::move(D.functions);
    top["records"] = std::move(D.records);
    top["types"] = std::move(D.types);
    top["globals"] = std::move(D.globals);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << json::Value(std::move(top));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getDiagnostics().setSuppressAllDiagnostics(false);
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char **argv) {
  // front OUT ROOT[,ROOT..] FILE -- flags
  if (argc < 4) return 64;
  OutPath = argv[1];
  std::string rs = argv[2], cur;
  for (char c : rs + ",") {
    if (c == ',') { if (!cur.empty()) Roots.push_back(cur); cur.clear(); }
    else cur += c;
  }
  std::string file = argv[3];
  std::vector<std::string> flags;
  bool on = false;
  for (int i = 4; i < argc; i++) {
    if (!on && std::string(argv[i]) == "--") { on = true; continue; }
    flags.push_back(argv[i]);
  }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {file});
  int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  if (rc || Errors) return 1;
  return 0;
}
