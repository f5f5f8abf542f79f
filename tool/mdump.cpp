// mdump: lowers the resolved (type-checked) AST of one translation unit to a
// compact JSON program: records, globals, enums, and for every function whose
// body lies under the repository root a control-flow graph whose elements are
// expression nodes in evaluation order.
//
// usage: mdump ROOT OUT.json -- clang-args... file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Path.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string Root, OutFile;

namespace {
struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> TypeIdx, FileIdx, StrIdx;
  std::vector<std::string> Types, Files, Strs;
  json::Array Funcs, Records, Globals, Enums;
  std::set<const Decl *> Seen;
  std::vector<const FunctionDecl *> Work;
  std::set<std::string> RecSeen, FuncSeen;

  Dumper (ASTContext &C) : C (C), SM (C.getSourceManager ()), PP (C.getLangOpts ())
  {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressScope = false;
    PP.AnonymousTagLocations = false;
  }

  bool shouldVisitTemplateInstantiations () const { return true; }
  bool shouldVisitImplicitCode () const { return false; }
  bool shouldVisitLambdaBody () const { return true; }

  static int intern (std::map<std::string, int> &M, std::vector<std::string> &V,
                     const std::string &s)
  {
    auto it = M.find (s);
    if (it != M.end ())
      return it->second;
    int n = V.size ();
    M.emplace (s, n);
    V.push_back (s);
    return n;
  }
  int str (const std::string &s) { return intern (StrIdx, Strs, s); }

  std::string typeStr (QualType T)
  {
    return T.getCanonicalType ().getAsString (PP);
  }
  int type (QualType T)
  {
    if (T.isNull ())
      return -1;
    return intern (TypeIdx, Types, typeStr (T));
  }

  std::string relFile (SourceLocation L)
  {
    L = SM.getExpansionLoc (L);
    auto F = SM.getFilename (L);
    std::string s = F.str ();
    llvm::SmallString<256> P (s);
    if (!llvm::sys::path::is_absolute (P))
      llvm::sys::fs::make_absolute (P);
    llvm::sys::path::remove_dots (P, true);
    s = P.str ().str ();
    if (s.compare (0, Root.size (), Root) == 0)
      return s.substr (Root.size ());
    return "";
  }
  bool inRepo (const Decl *D)
  {
    SourceLocation L = D->getLocation ();
    if (L.isInvalid ())
      return false;
    L = SM.getExpansionLoc (L);
    if (SM.isInSystemHeader (L))
      return false;
    std::string f = relFile (L);
    if (f.empty ())
      return false;
    if (f.compare (0, 4, "src/") == 0 || f.compare (0, 9, "macposts/") == 0)
      return true;
    return false;
  }
  int line (SourceLocation L) { return SM.getExpansionLineNumber (L); }

  std::string lambdaName (const CXXRecordDecl *R)
  {
    auto L = SM.getExpansionLoc (R->getBeginLoc ());
    return "(lambda@" + relFile (L) + ":"
           + std::to_string (SM.getExpansionLineNumber (L)) + ":"
           + std::to_string (SM.getExpansionColumnNumber (L)) + ")";
  }

  std::string recName (const RecordDecl *R)
  {
    if (auto *CR = dyn_cast<CXXRecordDecl> (R))
      if (CR->isLambda ())
        return lambdaName (CR);
    return typeStr (C.getRecordType (R));
  }

  std::string fnName (const FunctionDecl *F)
  {
    std::string s;
    if (auto *M = dyn_cast<CXXMethodDecl> (F))
      {
        s = recName (M->getParent ()) + "::" + F->getNameAsString ();
        if (isa<CXXDestructorDecl> (F))
          s = recName (M->getParent ()) + "::~";
        else if (isa<CXXConstructorDecl> (F))
          s = recName (M->getParent ()) + "::#ctor";
        return s;
      }
    llvm::raw_string_ostream OS (s);
    F->printQualifiedName (OS, PP);
    return s;
  }
  std::string fnKey (const FunctionDecl *F)
  {
    std::string s = fnName (F);
    if (auto *TA = F->getTemplateSpecializationArgs ())
      {
        s += "<";
        llvm::raw_string_ostream OS (s);
        for (unsigned i = 0; i < TA->size (); ++i)
          {
            if (i)
              OS << ",";
            TA->get (i).print (PP, OS, true);
          }
        OS << ">";
        OS.flush ();
      }
    s += "(";
    bool first = true;
    for (auto *P : F->parameters ())
      {
        if (!first)
          s += ",";
        first = false;
        s += typeStr (P->getType ());
      }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl> (F))
      if (M->isConst ())
        s += "c";
    if (F->getFormalLinkage () == Linkage::Internal && !isa<CXXMethodDecl> (F))
      s += "@" + llvm::sys::path::filename (SM.getFileEntryForID (SM.getMainFileID ())->getName ()).str ();
    return s;
  }

  // ---------------------------------------------------------------- function
  struct Ctx {
    std::map<const Stmt *, int> Id;
    json::Array Nodes;
    std::map<const VarDecl *, int> Vars;
    json::Array VarArr;
  };

  int var (Ctx &X, const VarDecl *V)
  {
    V = V->getCanonicalDecl ();
    auto it = X.Vars.find (V);
    if (it != X.Vars.end ())
      return it->second;
    int n = X.Vars.size ();
    X.Vars[V] = n;
    std::string kind = isa<ParmVarDecl> (V) ? "p" : "l";
    if (V->isStaticLocal ())
      kind = "s";
    else if (V->hasGlobalStorage ())
      kind = "g";
    int pidx = -1;
    if (auto *P = dyn_cast<ParmVarDecl> (V))
      pidx = P->getFunctionScopeIndex ();
    std::string nm = V->getNameAsString ();
    if (kind == "g" || kind == "s")
      {
        std::string q;
        llvm::raw_string_ostream OS (q);
        V->printQualifiedName (OS, PP);
        nm = q;
      }
    // the function that declares it (for captured variables)
    std::string owner;
    if (auto *FD = dyn_cast_or_null<FunctionDecl> (V->getDeclContext ()))
      owner = fnKey (FD);
    X.VarArr.push_back (json::Array{ nm, kind, type (V->getType ()), pidx,
                                     line (V->getLocation ()), str (owner) });
    return n;
  }

  const Stmt *strip (const Stmt *S)
  {
    while (S)
      {
        if (auto *E = dyn_cast<ParenExpr> (S))
          S = E->getSubExpr ();
        else if (auto *E = dyn_cast<FullExpr> (S)) // ExprWithCleanups, ConstantExpr
          S = E->getSubExpr ();
        else if (auto *E = dyn_cast<MaterializeTemporaryExpr> (S))
          S = E->getSubExpr ();
        else if (auto *E = dyn_cast<CXXBindTemporaryExpr> (S))
          S = E->getSubExpr ();
        else if (auto *E = dyn_cast<CXXDefaultArgExpr> (S))
          S = E->getExpr ();
        else if (auto *E = dyn_cast<CXXDefaultInitExpr> (S))
          S = E->getExpr ();
        else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr> (S))
          S = E->getReplacement ();
        else if (auto *E = dyn_cast<OpaqueValueExpr> (S))
          {
            if (!E->getSourceExpr ())
              return S;
            S = E->getSourceExpr ();
          }
        else if (auto *E = dyn_cast<CXXStdInitializerListExpr> (S))
          S = E->getSubExpr ();
        else if (auto *E = dyn_cast<CXXFunctionalCastExpr> (S))
          {
            // functional cast around a constructor call is transparent
            if (isa<CXXConstructExpr> (strip (E->getSubExpr ())))
              S = E->getSubExpr ();
            else
              return S;
          }
        else if (auto *E = dyn_cast<ImplicitCastExpr> (S))
          {
            if (E->getCastKind () == CK_NoOp
                || E->getCastKind () == CK_ConstructorConversion
                || E->getCastKind () == CK_UserDefinedConversion
                || E->getCastKind () == CK_FunctionToPointerDecay)
              S = E->getSubExpr ();
            else
              return S;
          }
        else
          return S;
      }
    return S;
  }

  json::Array ids (Ctx &X, llvm::ArrayRef<const Stmt *> L)
  {
    json::Array A;
    for (auto *S : L)
      A.push_back (node (X, S));
    return A;
  }

  int fn (const FunctionDecl *F)
  {
    if (!F)
      return -1;
    if (auto *M = dyn_cast<CXXMethodDecl> (F))
      (void) M;
    note (F);
    return str (fnKey (F));
  }
  std::map<std::string, json::Value> Ext; // signature info on called functions
  void note (const FunctionDecl *F)
  {
    std::string k = fnKey (F);
    if (Ext.count (k))
      return;
    json::Object O;
    O["name"] = fnName (F);
    O["base"] = F->getNameAsString ();
    json::Array P;
    for (auto *Q : F->parameters ())
      P.push_back (type (Q->getType ()));
    O["params"] = std::move (P);
    O["ret"] = type (F->getReturnType ());
    if (auto *M = dyn_cast<CXXMethodDecl> (F))
      {
        O["rec"] = recName (M->getParent ());
        O["const"] = M->isConst ();
        O["virtual"] = M->isVirtual ();
        O["static"] = M->isStatic ();
        json::Array OV;
        Ext.emplace (k, nullptr);
        for (auto *B : M->overridden_methods ())
          {
            OV.push_back (fnKey (B));
            note (B);
          }
        O["overrides"] = std::move (OV);
        if (auto *CD = dyn_cast<CXXConstructorDecl> (M))
          {
            O["ctor"] = true;
            O["copy"] = CD->isCopyOrMoveConstructor ();
          }
      }
    O["noreturn"] = F->isNoReturn ();
    O["repo"] = inRepo (F);
    O["variadic"] = F->isVariadic ();
    Ext.erase (k);
    Ext.emplace (k, std::move (O));
  }

  // lower one expression/statement, returns node id
  int node (Ctx &X, const Stmt *S)
  {
    if (!S)
      return -1;
    const Stmt *S0 = S;
    S = strip (S);
    auto it = X.Id.find (S);
    if (it != X.Id.end ())
      {
        X.Id[S0] = it->second;
        return it->second;
      }
    json::Object N;
    auto *E = dyn_cast<Expr> (S);
    int ty = E ? type (E->getType ()) : -1;
    auto put = [&] (const char *k) { N["k"] = k; };

    if (auto *D = dyn_cast<DeclRefExpr> (S))
      {
        const ValueDecl *V = D->getDecl ();
        if (auto *VD = dyn_cast<VarDecl> (V))
          {
            put ("var");
            N["v"] = var (X, VD);
          }
        else if (auto *FD = dyn_cast<FunctionDecl> (V))
          {
            put ("fn");
            N["f"] = fn (FD);
          }
        else if (auto *EC = dyn_cast<EnumConstantDecl> (V))
          {
            put ("enum");
            N["n"] = EC->getNameAsString ();
            N["val"] = (int64_t) EC->getInitVal ().getExtValue ();
          }
        else
          {
            put ("dref");
            N["n"] = V->getNameAsString ();
          }
      }
    else if (auto *M = dyn_cast<MemberExpr> (S))
      {
        auto *MD = M->getMemberDecl ();
        int b = node (X, M->getBase ());
        if (auto *FD = dyn_cast<FieldDecl> (MD))
          {
            put ("mem");
            N["n"] = FD->getNameAsString ();
            N["r"] = str (recName (FD->getParent ()));
            N["b"] = b;
            if (M->isArrow ())
              N["arrow"] = 1;
          }
        else if (auto *VD = dyn_cast<VarDecl> (MD))
          {
            put ("var");
            N["v"] = var (X, VD);
          }
        else
          {
            put ("meth");
            N["b"] = b;
            if (M->isArrow ())
              N["arrow"] = 1;
            if (auto *FD = dyn_cast<FunctionDecl> (MD))
              N["f"] = fn (FD);
          }
      }
    else if (auto *CE = dyn_cast<CallExpr> (S))
      {
        put ("call");
        auto *FD = CE->getDirectCallee ();
        int obj = -1;
        std::vector<const Stmt *> args;
        bool op = isa<CXXOperatorCallExpr> (S);
        if (auto *MC = dyn_cast<CXXMemberCallExpr> (S))
          {
            obj = node (X, MC->getImplicitObjectArgument ());
            if (auto *ME = dyn_cast<MemberExpr> (strip (MC->getCallee ())))
              {
                if (ME->isArrow ())
                  N["arrow"] = 1;
                if (ME->hasQualifier ())
                  N["qual"] = 1; // non-virtual dispatch
              }
            for (auto *A : CE->arguments ())
              args.push_back (A);
          }
        else if (op && FD && isa<CXXMethodDecl> (FD))
          {
            obj = node (X, CE->getArg (0));
            for (unsigned i = 1; i < CE->getNumArgs (); ++i)
              args.push_back (CE->getArg (i));
          }
        else
          for (auto *A : CE->arguments ())
            args.push_back (A);
        if (op)
          N["op"] = 1;
        N["f"] = fn (FD);
        if (!FD)
          N["callee"] = node (X, CE->getCallee ());
        if (obj >= 0)
          N["o"] = obj;
        N["a"] = ids (X, args);
      }
    else if (auto *CC = dyn_cast<CXXConstructExpr> (S))
      {
        put ("ctor");
        N["f"] = fn (CC->getConstructor ());
        std::vector<const Stmt *> args;
        for (auto *A : CC->arguments ())
          args.push_back (A);
        N["a"] = ids (X, args);
        if (CC->getConstructor ()->isCopyOrMoveConstructor ())
          N["copy"] = 1;
        if (CC->requiresZeroInitialization ())
          N["zi"] = 1;
      }
    else if (auto *NE = dyn_cast<CXXNewExpr> (S))
      {
        put ("new");
        N["t2"] = type (NE->getAllocatedType ());
        if (NE->isArray ())
          {
            N["arr"] = 1;
            if (auto SZ = NE->getArraySize ())
              if (*SZ)
                N["size"] = node (X, *SZ);
          }
        if (NE->getInitializer ())
          N["init"] = node (X, NE->getInitializer ());
        if (NE->hasInitializer ())
          N["hasinit"] = 1;
        json::Array P;
        for (unsigned i = 0; i < NE->getNumPlacementArgs (); ++i)
          P.push_back (node (X, NE->getPlacementArg (i)));
        if (!P.empty ())
          N["place"] = std::move (P);
      }
    else if (auto *DE = dyn_cast<CXXDeleteExpr> (S))
      {
        put ("delete");
        N["e"] = node (X, DE->getArgument ());
        if (DE->isArrayForm ())
          N["arr"] = 1;
      }
    else if (auto *U = dyn_cast<UnaryOperator> (S))
      {
        put ("un");
        std::string o = UnaryOperator::getOpcodeStr (U->getOpcode ()).str ();
        if (U->isPostfix ())
          o = "post" + o;
        N["op"] = o;
        // &Class::method
        N["e"] = node (X, U->getSubExpr ());
      }
    else if (auto *B = dyn_cast<BinaryOperator> (S))
      {
        put ("bin");
        N["op"] = B->getOpcodeStr ().str ();
        N["l"] = node (X, B->getLHS ());
        N["r"] = node (X, B->getRHS ());
      }
    else if (auto *CO = dyn_cast<ConditionalOperator> (S))
      {
        put ("cond");
        N["c"] = node (X, CO->getCond ());
        N["l"] = node (X, CO->getTrueExpr ());
        N["r"] = node (X, CO->getFalseExpr ());
      }
    else if (auto *CA = dyn_cast<CastExpr> (S))
      {
        put ("cast");
        N["ck"] = CA->getCastKindName ();
        if (isa<ExplicitCastExpr> (CA))
          N["x"] = CA->getStmtClassName ();
        N["e"] = node (X, CA->getSubExpr ());
      }
    else if (auto *AS = dyn_cast<ArraySubscriptExpr> (S))
      {
        put ("idx");
        N["b"] = node (X, AS->getBase ());
        N["i"] = node (X, AS->getIdx ());
      }
    else if (auto *IL = dyn_cast<IntegerLiteral> (S))
      {
        put ("int");
        N["val"] = (int64_t) IL->getValue ().getLimitedValue ();
      }
    else if (auto *FL = dyn_cast<FloatingLiteral> (S))
      {
        put ("flt");
        N["val"] = FL->getValueAsApproximateDouble ();
      }
    else if (auto *BL = dyn_cast<CXXBoolLiteralExpr> (S))
      {
        put ("bool");
        N["val"] = BL->getValue () ? 1 : 0;
      }
    else if (auto *CL = dyn_cast<CharacterLiteral> (S))
      {
        put ("int");
        N["val"] = (int64_t) CL->getValue ();
      }
    else if (auto *SL = dyn_cast<clang::StringLiteral> (S))
      {
        put ("str");
        if (SL->getCharByteWidth () == 1)
          {
            std::string v = SL->getString ().str ();
            N["val"] = llvm::json::isUTF8 (v) ? v : llvm::json::fixUTF8 (v);
          }
      }
    else if (isa<CXXNullPtrLiteralExpr> (S) || isa<GNUNullExpr> (S))
      put ("null");
    else if (isa<CXXThisExpr> (S))
      put ("this");
    else if (auto *L = dyn_cast<LambdaExpr> (S))
      {
        put ("lambda");
        N["f"] = str (fnKey (L->getCallOperator ()));
        Work.push_back (L->getCallOperator ());
        json::Array A;
        auto ci = L->capture_init_begin ();
        for (auto &Cap : L->captures ())
          {
            json::Array P;
            P.push_back (Cap.getCaptureKind () == LCK_ByRef ? "ref"
                         : Cap.getCaptureKind () == LCK_ByCopy ? "copy"
                                                               : "this");
            if (Cap.capturesVariable ())
              P.push_back (var (X, cast<VarDecl> (Cap.getCapturedVar ())));
            A.push_back (std::move (P));
            ++ci;
          }
        N["caps"] = std::move (A);
      }
    else if (auto *IE = dyn_cast<InitListExpr> (S))
      {
        put ("init");
        std::vector<const Stmt *> v;
        for (auto *I : IE->inits ())
          v.push_back (I);
        N["a"] = ids (X, v);
      }
    else if (auto *TE = dyn_cast<CXXThrowExpr> (S))
      {
        put ("throw");
        N["e"] = node (X, TE->getSubExpr ());
        if (TE->getSubExpr ())
          N["t2"] = type (TE->getSubExpr ()->getType ());
      }
    else if (auto *R = dyn_cast<ReturnStmt> (S))
      {
        put ("ret");
        N["e"] = node (X, R->getRetValue ());
      }
    else if (auto *DS = dyn_cast<DeclStmt> (S))
      {
        put ("decl");
        json::Array A;
        for (auto *D : DS->decls ())
          if (auto *V = dyn_cast<VarDecl> (D))
            A.push_back (json::Array{ var (X, V), node (X, V->getInit ()),
                                      V->isStaticLocal () ? 1 : 0 });
        N["d"] = std::move (A);
      }
    else if (auto *SV = dyn_cast<CXXScalarValueInitExpr> (S))
      {
        put ("zero");
        (void) SV;
      }
    else if (isa<ImplicitValueInitExpr> (S))
      put ("zero");
    else if (auto *UE = dyn_cast<UnaryExprOrTypeTraitExpr> (S))
      {
        put ("sizeof");
        (void) UE;
      }
    else
      {
        put ("other");
        N["cls"] = S->getStmtClassName ();
        json::Array A;
        if (isa<Expr> (S))
          for (auto *Ch : S->children ())
            if (Ch)
              A.push_back (node (X, Ch));
        N["a"] = std::move (A);
      }
    N["L"] = line (S->getBeginLoc ());
    if (ty >= 0)
      N["t"] = ty;
    int id = X.Nodes.size ();
    X.Nodes.push_back (std::move (N));
    X.Id[S] = id;
    X.Id[S0] = id;
    return id;
  }

  void emitFunction (const FunctionDecl *F)
  {
    if (!F->doesThisDeclarationHaveABody () && !F->hasBody ())
      return;
    const FunctionDecl *Def;
    if (!F->hasBody (Def))
      return;
    F = Def;
    if (F->isDependentContext ())
      return;
    if (!inRepo (F))
      return;
    if (F->isDefaulted () && !F->isUserProvided ())
      return;
    if (!Seen.insert (F).second)
      return;
    std::string key = fnKey (F);
    if (!FuncSeen.insert (key).second)
      return;
    json::Object O;
    O["key"] = key;
    O["name"] = fnName (F);
    O["base"] = F->getNameAsString ();
    O["file"] = relFile (F->getLocation ());
    O["line"] = line (F->getLocation ());
    O["endline"] = line (F->getEndLoc ());
    O["ret"] = type (F->getReturnType ());
    note (F);
    Ctx X;
    json::Array P;
    for (auto *Q : F->parameters ())
      {
        int v = var (X, Q);
        P.push_back (v);
      }
    O["params"] = std::move (P);
    if (auto *M = dyn_cast<CXXMethodDecl> (F))
      {
        O["rec"] = recName (M->getParent ());
        O["const"] = M->isConst ();
        O["virtual"] = M->isVirtual ();
        O["static"] = M->isStatic ();
        O["lambda"] = M->getParent ()->isLambda ();
        if (isa<CXXConstructorDecl> (M))
          O["kind"] = "ctor";
        else if (isa<CXXDestructorDecl> (M))
          O["kind"] = "dtor";
        else
          O["kind"] = "method";
      }
    else
      O["kind"] = "function";
    if (auto *FT = F->getType ()->getAs<FunctionProtoType> ())
      O["noexcept"] = FT->isNothrow ();
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd ();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = false;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = false;
    BO.AddCXXNewAllocator = false;
    BO.AddLifetime = false;
    BO.AddScopes = false;
    std::unique_ptr<CFG> G = CFG::buildCFG (F, F->getBody (), &C, BO);
    if (!G)
      {
        O["nocfg"] = true;
        Funcs.push_back (std::move (O));
        return;
      }
    json::Array Blocks;
    for (CFGBlock *B : *G)
      {
        json::Object BB;
        BB["id"] = (int) B->getBlockID ();
        json::Array Els;
        for (auto &El : *B)
          {
            if (auto S = El.getAs<CFGStmt> ())
              {
                Els.push_back (node (X, S->getStmt ()));
              }
            else if (auto I = El.getAs<CFGInitializer> ())
              {
                auto *CI = I->getInitializer ();
                json::Object N;
                N["k"] = "cinit";
                if (CI->isAnyMemberInitializer ())
                  {
                    N["n"] = CI->getAnyMember ()->getNameAsString ();
                    N["r"] = str (recName (CI->getAnyMember ()->getParent ()));
                  }
                else if (CI->isBaseInitializer ())
                  N["basec"] = typeStr (QualType (CI->getBaseClass (), 0));
                else
                  N["deleg"] = 1;
                N["written"] = CI->isWritten () ? 1 : 0;
                N["e"] = node (X, CI->getInit ());
                N["L"] = line (CI->getSourceLocation ().isValid ()
                                 ? CI->getSourceLocation ()
                                 : F->getLocation ());
                int id = X.Nodes.size ();
                X.Nodes.push_back (std::move (N));
                Els.push_back (id);
              }
            else if (auto D = El.getAs<CFGAutomaticObjDtor> ())
              {
                json::Object N;
                N["k"] = "autodtor";
                N["v"] = var (X, D->getVarDecl ());
                N["L"] = line (D->getTriggerStmt ()
                                 ? D->getTriggerStmt ()->getEndLoc ()
                                 : F->getEndLoc ());
                int id = X.Nodes.size ();
                X.Nodes.push_back (std::move (N));
                Els.push_back (id);
              }
          }
        BB["e"] = std::move (Els);
        json::Array Su;
        for (auto SI = B->succ_begin (); SI != B->succ_end (); ++SI)
          {
            CFGBlock *T = SI->getReachableBlock ();
            if (!T)
              T = SI->getPossiblyUnreachableBlock ();
            Su.push_back (T ? (int) T->getBlockID () : -1);
          }
        BB["s"] = std::move (Su);
        if (B->hasNoReturnElement ())
          BB["nr"] = 1;
        if (const Stmt *T = B->getTerminatorStmt ())
          {
            BB["tk"] = T->getStmtClassName ();
            if (isa<BinaryOperator> (T))
              BB["top"] = cast<BinaryOperator> (T)->getOpcodeStr ().str ();
            if (const Stmt *TC = B->getTerminatorCondition ())
              BB["tc"] = node (X, TC);
            BB["tl"] = line (T->getBeginLoc ());
          }
        if (const Stmt *L = B->getLabel ())
          {
            if (auto *CS = dyn_cast<CaseStmt> (L))
              BB["case"] = node (X, CS->getLHS ());
            else if (isa<DefaultStmt> (L))
              BB["default"] = 1;
            else if (auto *CT = dyn_cast<CXXCatchStmt> (L))
              {
                BB["catch"] = CT->getExceptionDecl ()
                                ? typeStr (CT->getCaughtType ())
                                : std::string ("...");
                BB["cl"] = line (CT->getBeginLoc ());
              }
          }
        if (const Stmt *LT = B->getLoopTarget ())
          {
            BB["loop"] = LT->getStmtClassName ();
          }
        Blocks.push_back (std::move (BB));
      }
    {
      json::Array Tr;
      tries (F->getBody (), Tr);
      if (!Tr.empty ())
        O["try"] = std::move (Tr);
    }
    O["entry"] = (int) G->getEntry ().getBlockID ();
    O["exit"] = (int) G->getExit ().getBlockID ();
    O["blocks"] = std::move (Blocks);
    O["vars"] = std::move (X.VarArr);
    O["nodes"] = std::move (X.Nodes);
    Funcs.push_back (std::move (O));
  }

  // try statements: first and last line of the body, caught types
  void tries (const Stmt *S, json::Array &Out)
  {
    if (!S || isa<LambdaExpr> (S))
      return;
    if (auto *T = dyn_cast<CXXTryStmt> (S))
      {
        json::Object O;
        O["b"] = line (T->getTryBlock ()->getBeginLoc ());
        O["e"] = line (T->getTryBlock ()->getEndLoc ());
        json::Array H;
        for (unsigned i = 0; i < T->getNumHandlers (); ++i)
          {
            auto *CT = T->getHandler (i);
            json::Object HO;
            HO["t"] = CT->getExceptionDecl () ? typeStr (CT->getCaughtType ()) : std::string ("...");
            HO["L"] = line (CT->getBeginLoc ());
            H.push_back (std::move (HO));
          }
        O["h"] = std::move (H);
        Out.push_back (std::move (O));
      }
    for (auto *K : S->children ())
      tries (K, Out);
  }

  // ------------------------------------------------------------------ visitor
  bool VisitFunctionDecl (FunctionDecl *F)
  {
    if (F->isThisDeclarationADefinition () && inRepo (F))
      Work.push_back (F);
    return true;
  }
  bool VisitLambdaExpr (LambdaExpr *L)
  {
    if (inRepo (L->getCallOperator ()))
      Work.push_back (L->getCallOperator ());
    return true;
  }
  bool VisitVarDecl (VarDecl *V)
  {
    if (!V->hasGlobalStorage () || !inRepo (V))
      return true;
    if (V->getDeclContext ()->isDependentContext ())
      return true;
    json::Object O;
    std::string q;
    llvm::raw_string_ostream OS (q);
    V->printQualifiedName (OS, PP);
    OS.flush ();
    O["name"] = q;
    O["file"] = relFile (V->getLocation ());
    O["line"] = line (V->getLocation ());
    O["type"] = typeStr (V->getType ());
    QualType T = V->getType ().getCanonicalType ();
    bool cst = T.isConstQualified () || V->isConstexpr ();
    if (auto *AT = C.getAsArrayType (T))
      cst = cst || AT->getElementType ().isConstQualified ();
    O["const"] = cst;
    O["def"] = V->isThisDeclarationADefinition () != VarDecl::DeclarationOnly;
    O["staticlocal"] = V->isStaticLocal ();
    O["threadlocal"] = V->getTLSKind () != VarDecl::TLS_None;
    Globals.push_back (std::move (O));
    return true;
  }
  bool VisitEnumDecl (EnumDecl *E)
  {
    if (!inRepo (E) || !E->isThisDeclarationADefinition ())
      return true;
    json::Object O;
    O["name"] = typeStr (C.getEnumType (E));
    O["file"] = relFile (E->getLocation ());
    json::Array A;
    for (auto *K : E->enumerators ())
      A.push_back (json::Array{ K->getNameAsString (),
                                (int64_t) K->getInitVal ().getExtValue () });
    O["vals"] = std::move (A);
    Enums.push_back (std::move (O));
    return true;
  }
  bool VisitCXXRecordDecl (CXXRecordDecl *R)
  {
    if (!R->isThisDeclarationADefinition () || !inRepo (R)
        || R->isDependentContext () || !R->isCompleteDefinition ())
      return true;
    std::string nm = recName (R);
    if (!RecSeen.insert (nm).second)
      return true;
    json::Object O;
    O["name"] = nm;
    O["file"] = relFile (R->getLocation ());
    O["line"] = line (R->getLocation ());
    O["lambda"] = R->isLambda ();
    O["abstract"] = R->isAbstract ();
    O["polymorphic"] = R->isPolymorphic ();
    auto *D = R->getDestructor ();
    O["vdtor"] = D && D->isVirtual ();
    O["userdtor"] = D && D->isUserProvided ();
    bool userctor = false, copydel = true, userCopy = false;
    for (auto *K : R->ctors ())
      {
        if (K->isUserProvided ())
          userctor = true;
        if (K->isCopyConstructor () && K->isUserProvided ())
          userCopy = true;
      }
    copydel = !R->hasSimpleCopyConstructor ();
    O["userctor"] = userctor;
    O["usercopy"] = userCopy;
    O["nosimplecopy"] = copydel;
    O["trivdtor"] = R->hasTrivialDestructor ();
    json::Array FA;
    for (auto *F : R->fields ())
      {
        json::Object FO;
        FO["n"] = F->getNameAsString ();
        FO["t"] = typeStr (F->getType ());
        QualType T = F->getType ().getCanonicalType ();
        FO["scalar"] = T->isScalarType ();
        FO["ptr"] = T->isPointerType ();
        FO["ref"] = T->isReferenceType ();
        FO["const"] = T.isConstQualified ();
        FO["mutable"] = F->isMutable ();
        FO["init"] = F->hasInClassInitializer ();
        FO["line"] = line (F->getLocation ());
        FA.push_back (std::move (FO));
      }
    O["fields"] = std::move (FA);
    json::Array BA;
    for (auto &B : R->bases ())
      BA.push_back (json::Array{ typeStr (B.getType ()), B.isVirtual () });
    O["bases"] = std::move (BA);
    json::Array MA;
    for (auto *M : R->methods ())
      {
        if (M->isImplicit () && !M->isUserProvided ())
          continue;
        note (M);
        MA.push_back (fnKey (M));
      }
    O["methods"] = std::move (MA);
    Records.push_back (std::move (O));
    return true;
  }

  void run ()
  {
    TraverseDecl (C.getTranslationUnitDecl ());
    for (size_t i = 0; i < Work.size (); ++i)
      emitFunction (Work[i]);
    std::error_code EC;
    llvm::raw_fd_ostream OS (OutFile, EC);
    json::Object O;
    O["funcs"] = std::move (Funcs);
    O["records"] = std::move (Records);
    O["globals"] = std::move (Globals);
    O["enums"] = std::move (Enums);
    json::Array T, S;
    for (auto &s : Types)
      T.push_back (s);
    for (auto &s : Strs)
      S.push_back (s);
    O["types"] = std::move (T);
    O["strs"] = std::move (S);
    json::Object E;
    for (auto &p : Ext)
      E[p.first] = std::move (p.second);
    O["ext"] = std::move (E);
    OS << json::Value (std::move (O));
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit (ASTContext &C) override
  {
    if (C.getDiagnostics ().hasErrorOccurred ())
      return;
    Dumper D (C);
    D.run ();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer (CompilerInstance &,
                                                  StringRef) override
  {
    return std::make_unique<Consumer> ();
  }
};
struct Factory : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create () override
  {
    return std::make_unique<Action> ();
  }
};
}

int
main (int argc, const char **argv)
{
  if (argc < 5)
    return 2;
  Root = argv[1];
  if (Root.back () != '/')
    Root += '/';
  OutFile = argv[2];
  std::vector<std::string> Args;
  Args.push_back ("clang++");
  int i = 3;
  if (std::string (argv[i]) == "--")
    ++i;
  for (; i < argc; ++i)
    Args.push_back (argv[i]);
  llvm::IntrusiveRefCntPtr<FileManager> FM (
    new FileManager (FileSystemOptions ()));
  tooling::ToolInvocation TI (Args, std::make_unique<Action> (), FM.get ());
  return TI.run () ? 0 : 1;
}
