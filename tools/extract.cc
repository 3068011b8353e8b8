// Extractor: parses one translation unit with clang and prints a JSON IR of every function
// (including template instantiations) that is located under a given source prefix.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <filesystem>
#include <fstream>
#include <map>
#include <regex>
#include <sstream>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::string g_prefix;   // only functions whose file starts with this
static llvm::raw_ostream *OS;

struct Dumper {
  ASTContext &Ctx; SourceManager &SM; PrintingPolicy PP;
  std::map<std::string,int> typeIdx; std::vector<json::Object> types;
  std::map<const Decl*,int> declIdx;
  std::set<std::string> doneFuncs;
  std::map<std::string,json::Object> records;
  json::Array globals; std::set<const Decl*> doneGlobals;
  Dumper(ASTContext &C):Ctx(C),SM(C.getSourceManager()),PP(C.getPrintingPolicy()){ PP.PrintCanonicalTypes=1;
    PP.SuppressTagKeyword=true; PP.Bool=true; PP.SuppressUnwrittenScope=true;
  }
  std::string fileOf(SourceLocation L){
    L=SM.getExpansionLoc(L); if(L.isInvalid()) return "";
    auto f=SM.getFilename(L).str();
    llvm::SmallString<256> P(f);
    if(auto FE=SM.getFileEntryRefForID(SM.getFileID(L))) { auto r=FE->getFileEntry().tryGetRealPathName(); if(!r.empty()) return r.str(); }
    return f;
  }
  int lineOf(SourceLocation L){ L=SM.getExpansionLoc(L); return L.isValid()? (int)SM.getExpansionLineNumber(L):0; }
  bool inScope(SourceLocation L){ std::string f=fileOf(L); return f.compare(0,g_prefix.size(),g_prefix)==0; }

  std::string plainQN(const NamedDecl*D){
    std::vector<std::string> parts; 
    auto nm=[&](const NamedDecl*N)->std::string{
      if(isa<CXXConstructorDecl>(N)) return "(ctor)";
      if(isa<CXXDestructorDecl>(N)) return "(dtor)";
      if(auto*C=dyn_cast<CXXConversionDecl>(N)) return "operator "+typeStr(C->getConversionType());
      std::string s=N->getNameAsString(); 
      if(auto*R=dyn_cast<CXXRecordDecl>(N)) if(R->isLambda()) s="(lambda)";
      return s; };
    parts.push_back(nm(D));
    for(const DeclContext*DC=D->getDeclContext();DC;DC=DC->getParent()){
      if(auto*N=dyn_cast<NamespaceDecl>(DC)){ if(!N->isInline()) parts.push_back(N->getNameAsString()); }
      else if(auto*R=dyn_cast<RecordDecl>(DC)) parts.push_back(nm(R));
      else if(auto*F=dyn_cast<FunctionDecl>(DC)) parts.push_back(nm(F));
    }
    std::string r; for(auto it=parts.rbegin();it!=parts.rend();++it){ if(!r.empty()) r+="::"; r+=*it; }
    return r;
  }
  std::string typeStr(QualType T){ return T.getCanonicalType().getAsString(PP); }
  int typeId(QualType T){
    if(T.isNull()) return -1;
    QualType C=T.getCanonicalType();
    std::string s=C.getAsString(PP);
    auto it=typeIdx.find(s); if(it!=typeIdx.end()) return it->second;
    int id=types.size(); typeIdx[s]=id; types.emplace_back();
    json::Object o; o["s"]=s;
    QualType U=C;
    if(U->isReferenceType()){ o["ref"]=U->isRValueReferenceType()?2:1; U=U->getPointeeType(); }
    if(U.isConstQualified()) o["const"]=true;
    if(U->isPointerType()){ o["ptr"]=true; if(U->getPointeeType().isConstQualified()) o["pconst"]=true; o["pt"]=typeId(U->getPointeeType().getUnqualifiedType()); }
    if(U->isArrayType()) o["arr"]=true;
    if(U->isBooleanType()) o["bool"]=true;
    else if(U->isEnumeralType()) o["enum"]=true;
    else if(U->isIntegerType()&&!U->isDependentType()){ o["int"]=(int)Ctx.getTypeSize(U); o["sg"]=U->isSignedIntegerType(); }
    else if(U->isFloatingType()) o["float"]=true;
    if(auto*R=U->getAsCXXRecordDecl()){ o["rec"]=plainQN(R);
      recordInfo(R);
      json::Array ta; if(auto*S=dyn_cast<ClassTemplateSpecializationDecl>(R)) for(auto&A:S->getTemplateArgs().asArray()) argPush(ta,A);
      if(!ta.empty()) o["ta"]=std::move(ta);
    }
    if(C->isReferenceType()||U.isConstQualified()) { o["ut"]=typeId(U.getUnqualifiedType()); }
    types[id]=std::move(o);
    return id;
  }
  void argPush(json::Array&ta,const TemplateArgument&A){
    if(A.getKind()==TemplateArgument::Type) ta.push_back(typeId(A.getAsType()));
    else if(A.getKind()==TemplateArgument::Pack) for(auto&B:A.pack_elements()) argPush(ta,B);
  }
  void recordInfo(const CXXRecordDecl*R){
    R=R->getDefinition(); if(!R||R->isDependentType()) return;
    { const CXXRecordDecl*P=R->getTemplateInstantiationPattern(); if(!inScope((P?P:R)->getLocation())) return; }
    std::string s=typeStr(QualType(R->getTypeForDecl(),0));
    if(records.count(s)) return;
    records[s]=json::Object();
    json::Object o; o["name"]=plainQN(R); const CXXRecordDecl*Pt=R->getTemplateInstantiationPattern(); SourceLocation RL=(Pt?Pt:R)->getLocation(); o["file"]=fileOf(RL); o["line"]=lineOf(RL);
    json::Array fs; for(auto*F:R->fields()){ json::Object f; f["name"]=F->getNameAsString(); f["t"]=typeId(F->getType()); f["line"]=lineOf(F->getLocation()); f["mut"]=F->isMutable(); f["acc"]=(int)F->getAccess(); f["init"]=F->hasInClassInitializer(); fs.push_back(std::move(f)); }
    o["fields"]=std::move(fs);
    json::Array bs; for(auto&B:R->bases()) bs.push_back(typeId(B.getType())); o["bases"]=std::move(bs);
    json::Array ms; for(auto*D:R->decls()) { const CXXMethodDecl*M=dyn_cast<CXXMethodDecl>(D);
        if(!M){ if(auto*FT=dyn_cast<FunctionTemplateDecl>(D)) M=dyn_cast<CXXMethodDecl>(FT->getTemplatedDecl()); }
        if(!M) continue; json::Object m; m["name"]=M->getNameAsString(); m["acc"]=(int)M->getAccess(); m["line"]=lineOf(M->getLocation());
        m["const"]=M->isConst(); m["static"]=M->isStatic(); m["del"]=M->isDeleted(); m["def"]=M->isDefaulted(); m["implicit"]=M->isImplicit();
        if(!M->getType()->isDependentType()) m["ret"]=typeId(M->getReturnType());
        if(auto*C=dyn_cast<CXXConstructorDecl>(M)) m["sm"]= C->isCopyConstructor()?"cc":C->isMoveConstructor()?"mc":C->isDefaultConstructor()?"dc":"ctor";
        else if(M->isCopyAssignmentOperator()) m["sm"]="ca"; else if(M->isMoveAssignmentOperator()) m["sm"]="ma"; else if(isa<CXXDestructorDecl>(M)) m["sm"]="dtor";
        ms.push_back(std::move(m)); }
    o["methods"]=std::move(ms);
    records[s]=std::move(o);
  }

  // ---------- per function
  struct FnState { std::vector<json::Object> nodes; std::map<const Stmt*,int> idx; std::map<const ValueDecl*,int> vars; json::Array varArr; std::vector<const CXXMethodDecl*> lambdas; std::vector<const FunctionDecl*> callees; };
  FnState *F=nullptr;

  static const Stmt* strip(const Stmt*S){
    while(S){
      if(auto*P=dyn_cast<ParenExpr>(S)) S=P->getSubExpr();
      else if(auto*P=dyn_cast<ExprWithCleanups>(S)) S=P->getSubExpr();
      else if(auto*P=dyn_cast<MaterializeTemporaryExpr>(S)) S=P->getSubExpr();
      else if(auto*P=dyn_cast<CXXBindTemporaryExpr>(S)) S=P->getSubExpr();
      else if(auto*P=dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S=P->getReplacement();
      else if(auto*P=dyn_cast<ConstantExpr>(S)) S=P->getSubExpr();
      else if(auto*P=dyn_cast<CXXDefaultArgExpr>(S)) S=P->getExpr();
      else if(auto*P=dyn_cast<CXXDefaultInitExpr>(S)) S=P->getExpr();
      else if(auto*P=dyn_cast<CXXRewrittenBinaryOperator>(S)) S=P->getSemanticForm();
      else if(auto*P=dyn_cast<ImplicitCastExpr>(S)){
        switch(P->getCastKind()){
          case CK_IntegralCast: case CK_IntegralToBoolean: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_PointerToBoolean: return S;
          case CK_UserDefinedConversion: case CK_ConstructorConversion:
          default: S=P->getSubExpr(); }
      }
      else return S;
    }
    return S;
  }
  int varId(const ValueDecl*D){
    auto*C=cast<ValueDecl>(D->getCanonicalDecl());
    auto it=F->vars.find(C); if(it!=F->vars.end()) return it->second;
    int id=F->varArr.size(); F->vars[C]=id;
    json::Object o; o["n"]=D->getNameAsString(); o["t"]=typeId(D->getType()); o["l"]=lineOf(D->getLocation());
    const char*k="local";
    if(isa<ParmVarDecl>(D)) k="param";
    else if(auto*V=dyn_cast<VarDecl>(D)){ if(V->isStaticLocal()) k="staticlocal"; else if(V->hasGlobalStorage()) k="global"; 
      if(V->isConstexpr()) o["cx"]=true;
      if(V->hasGlobalStorage()&&!V->isStaticLocal()) { o["qn"]=plainQN(V); globalVar(V);} 
      if(V->isStaticLocal()) globalVar(V); }
    else if(isa<BindingDecl>(D)) k="binding";
    else if(isa<EnumConstantDecl>(D)) { k="enumc"; o["qn"]=plainQN(D);} 
    else if(isa<FieldDecl>(D)) k="field";
    o["k"]=k; F->varArr.push_back(std::move(o)); return id;
  }
  void globalVar(const VarDecl*V){
    V=V->getCanonicalDecl(); if(!doneGlobals.insert(V).second) return;
    if(!inScope(V->getLocation())) return;
    json::Object o; o["qn"]=plainQN(V); o["t"]=typeId(V->getType()); o["file"]=fileOf(V->getLocation()); o["line"]=lineOf(V->getLocation());
    o["const"]=V->getType().isConstQualified(); o["cx"]=V->isConstexpr(); o["static_local"]=V->isStaticLocal(); o["tls"]=V->getTLSKind()!=VarDecl::TLS_None;
    if(V->hasInit() || V->getDefinition()){ const VarDecl*D=V->getDefinition(); if(!D) D=V; if(D->hasInit()&&!D->getInit()->isValueDependent()) o["constinit"]=D->hasConstantInitialization(); }
    globals.push_back(std::move(o));
  }
  std::string fkey(const FunctionDecl*D){
    // unique key
    const FunctionDecl*C=D->getCanonicalDecl();
    std::string key; llvm::SmallString<256> buf;
    std::string s; llvm::raw_string_ostream o(s);
    C->getNameForDiagnostic(o,PP,true); o.flush();
    s+="("; bool first=true; for(auto*P:C->parameters()){ if(!first) s+=","; first=false; s+=typeStr(P->getType()); } s+=")";
    if(auto*M=dyn_cast<CXXMethodDecl>(C)){ if(M->isConst()) s+=" const"; if(M->getRefQualifier()==RQ_RValue) s+=" &&"; 
      if(M->getParent()->isLambda()) s+="@"+fileOf(M->getLocation())+":"+std::to_string(lineOf(M->getLocation()))+":"+std::to_string(SM.getExpansionColumnNumber(M->getLocation())); 
      // local classes / lambdas in templated functions: add parent function
      if(auto*PF=dyn_cast_or_null<FunctionDecl>(M->getParent()->getParentFunctionOrMethod())) s+="@@"+fkey(PF);
    }
    if(auto*CD=dyn_cast<CXXConversionDecl>(C)) s+="->"+typeStr(CD->getConversionType());
    return s;
  }
  void callInfo(json::Object&o,const FunctionDecl*D){
    if(!D) return;
    o["f"]=fkey(D); o["fq"]=plainQN(D);
    if(D->isDeleted()) o["fdel"]=true;
    const FunctionDecl*Def=nullptr; bool hb=D->hasBody(Def);
    if(inScope(D->getLocation())||(hb&&inScope(Def->getLocation()))) { o["in"]=true; }
    if(D->isVariadic()) o["va"]=true;
    json::Array ps; for(auto*P:D->parameters()) ps.push_back(typeId(P->getType())); o["pt"]=std::move(ps);
    if(auto*M=dyn_cast<CXXMethodDecl>(D)){ if(M->isConst()) o["mconst"]=true; if(M->isStatic()) o["mstatic"]=true; o["cls"]=plainQN(M->getParent()); 
      if(auto*C=dyn_cast<CXXConstructorDecl>(M)){ if(C->isCopyConstructor()) o["ck"]="copy"; else if(C->isMoveConstructor()) o["ck"]="move"; else if(C->isDefaultConstructor()) o["ck"]="default"; }
      else if(M->isCopyAssignmentOperator()) o["ck"]="ca"; else if(M->isMoveAssignmentOperator()) o["ck"]="ma";
      if(M->isImplicit()||M->isDefaulted()) o["dfl"]=true;
    }
  }
  bool fromMacro(SourceLocation L,const char*name){
    while(L.isMacroID()){
      StringRef n=Lexer::getImmediateMacroName(L,SM,Ctx.getLangOpts());
      if(n==name) return true;
      if(SM.isMacroArgExpansion(L)) L=SM.getImmediateExpansionRange(L).getBegin();
      else L=SM.getImmediateExpansionRange(L).getBegin();
    }
    return false;
  }
  int node(const Stmt*S0){
    const Stmt*S=strip(S0); if(!S) return -1;
    auto it=F->idx.find(S); if(it!=F->idx.end()){ F->idx[S0]=it->second; return it->second; }
    int id=F->nodes.size(); F->nodes.emplace_back(); F->idx[S]=id; F->idx[S0]=id;
    json::Object o; std::vector<const Stmt*> ch; bool auto_children=true;
    o["l"]=lineOf(S->getBeginLoc());
    std::string k=S->getStmtClassName();
    if(auto*E=dyn_cast<Expr>(S)){
      o["t"]=typeId(E->getType());
      if(E->isLValue()) o["lv"]=1; else if(E->isXValue()) o["lv"]=2;
      if(!E->isValueDependent()&&E->getType()->isIntegralOrEnumerationType()&&!isa<CallExpr>(E)){
        Expr::EvalResult R; if(E->EvaluateAsInt(R,Ctx,Expr::SE_NoSideEffects)) { llvm::SmallString<32> b; R.Val.getInt().toString(b,10); 
          o["v"]=std::string(b.str()); }
      }
    }
    if(auto*E=dyn_cast<DeclRefExpr>(S)){
      k="Ref"; auto*D=E->getDecl(); o["n"]=D->getNameAsString();
      if(auto*FD=dyn_cast<FunctionDecl>(D)) { k="FnRef"; callInfo(o,FD);} else if(!isa<NonTypeTemplateParmDecl>(D)) o["d"]=varId(D);
      if(E->refersToEnclosingVariableOrCapture()) o["cap"]=true;
    } else if(auto*E=dyn_cast<MemberExpr>(S)){
      k="Mem"; auto*D=E->getMemberDecl(); o["n"]=D->getNameAsString(); o["own"]=plainQN(cast<NamedDecl>(Decl::castFromDeclContext(D->getDeclContext())));
      if(E->isArrow()) o["arrow"]=true;
      if(auto*FD=dyn_cast<FunctionDecl>(D)) { o["fn"]=true; callInfo(o,FD);} 
      if(auto*V=dyn_cast<VarDecl>(D)) { o["svar"]=plainQN(V); globalVar(V);} 
      ch={E->getBase()}; auto_children=false;
    } else if(auto*E=dyn_cast<CXXOperatorCallExpr>(S)){
      k="Call"; o["op"]=getOperatorSpelling(E->getOperator()); callInfo(o,E->getDirectCallee());
      auto*M=dyn_cast_or_null<CXXMethodDecl>(E->getDirectCallee()); if(M&&!M->isStatic()) o["obj"]=1;
      for(auto*A:E->arguments()) ch.push_back(A); auto_children=false;
    } else if(auto*E=dyn_cast<CXXMemberCallExpr>(S)){
      k="Call"; callInfo(o,E->getMethodDecl()); 
      o["obj"]=1; // children[0] is the object
      const Expr*cal=E->getCallee()->IgnoreParenImpCasts();
      if(auto*M=dyn_cast<MemberExpr>(cal)){ if(M->isArrow()) o["arrow"]=true; }
      ch.push_back(E->getImplicitObjectArgument()); for(auto*A:E->arguments()) ch.push_back(A); auto_children=false;
    } else if(auto*E=dyn_cast<CallExpr>(S)){
      k="Call"; 
      if(auto*D=E->getDirectCallee()) { callInfo(o,D); for(auto*A:E->arguments()) ch.push_back(A);} 
      else { o["indirect"]=true; ch.push_back(E->getCallee()); for(auto*A:E->arguments()) ch.push_back(A);} auto_children=false;
    } else if(auto*E=dyn_cast<CXXConstructExpr>(S)){
      k="Ctor"; callInfo(o,E->getConstructor()); for(auto*A:E->arguments()) ch.push_back(A); auto_children=false;
      if(E->isListInitialization()) o["list"]=true; if(E->isElidable()) o["elid"]=true; if(isa<CXXTemporaryObjectExpr>(E)) o["tmp"]=true;
      if(E->requiresZeroInitialization()) o["zinit"]=true;
    } else if(auto*E=dyn_cast<BinaryOperator>(S)){ k= E->isAssignmentOp()?"Assign":"Bin"; o["op"]=E->getOpcodeStr().str(); }
    else if(auto*E=dyn_cast<UnaryOperator>(S)){ k="Un"; std::string op=UnaryOperator::getOpcodeStr(E->getOpcode()).str(); if(E->isPostfix()) op="post"+op; o["op"]=op; }
    else if(auto*E=dyn_cast<CastExpr>(S)){ k="Cast"; o["ck"]=E->getCastKindName(); if(isa<ImplicitCastExpr>(E)) o["imp"]=true; if(isa<CXXConstCastExpr>(E)) o["constcast"]=true; if(isa<CXXReinterpretCastExpr>(E)) o["reint"]=true;
       if(auto*CS=dyn_cast<CStyleCastExpr>(E)){ QualType from=CS->getSubExpr()->getType(),to=CS->getType(); if(to->isPointerType()&&from->isPointerType()&&!to->getPointeeType().isConstQualified()&&from->getPointeeType().isConstQualified()) o["constcast"]=true; } }
    else if(auto*E=dyn_cast<IntegerLiteral>(S)){ k="Int"; llvm::SmallString<32> b; E->getValue().toString(b,10,E->getType()->isSignedIntegerType()); o["v"]=std::string(b.str()); }
    else if(auto*E=dyn_cast<CXXBoolLiteralExpr>(S)){ k="Bool"; o["v"]=E->getValue()?"1":"0"; }
    else if(auto*E=dyn_cast<FloatingLiteral>(S)){ k="Float"; o["fv"]=E->getValueAsApproximateDouble(); }
    else if(auto*E=dyn_cast<StringLiteral>(S)){ k="Str"; if(E->isOrdinary()) { std::string s=E->getString().str(); if(json::isUTF8(s)) o["s"]=s; } }
    else if(isa<CXXThisExpr>(S)) k="This";
    else if(auto*E=dyn_cast<ArraySubscriptExpr>(S)){ k="Index"; (void)E; }
    else if(isa<ConditionalOperator>(S)) k="Cond";
    else if(auto*E=dyn_cast<CXXNewExpr>(S)){ k="New"; if(E->isArray()) o["arr"]=true; if(E->isArray()&&E->getArraySize()) ch.push_back(*E->getArraySize()); if(E->getConstructExpr()) ch.push_back(E->getConstructExpr()); else if(E->getInitializer()) ch.push_back(E->getInitializer()); auto_children=false; }
    else if(auto*E=dyn_cast<CXXDeleteExpr>(S)){ k="Delete"; if(E->isArrayForm()) o["arr"]=true; ch.push_back(E->getArgument()); auto_children=false; }
    else if(isa<CXXThrowExpr>(S)) k="Throw";
    else if(isa<ReturnStmt>(S)) k="Return";
    else if(auto*E=dyn_cast<UnaryExprOrTypeTraitExpr>(S)){ k="Sizeof"; (void)E; auto_children=false; }
    else if(auto*E=dyn_cast<LambdaExpr>(S)){ k="Lambda"; o["f"]=fkey(E->getCallOperator()); auto_children=false; 
      json::Array caps; unsigned ci=0; for(auto&C:E->captures()){ json::Object c; if(C.capturesVariable()){ c["d"]=varId(C.getCapturedVar()); c["ref"]=C.getCaptureKind()==LCK_ByRef; } else if(C.capturesThis()) c["this"]=true; caps.push_back(std::move(c)); (void)ci; }
      o["caps"]=std::move(caps); for(auto*I:E->capture_inits()) if(I) ch.push_back(I);
      F->lambdas.push_back(E->getCallOperator()); }
    else if(auto*D=dyn_cast<DeclStmt>(S)){ k="Decl"; auto_children=false; json::Array vs;
      for(auto*X:D->decls()) if(auto*V=dyn_cast<VarDecl>(X)){ json::Object v; v["d"]=varId(V); 
        if(auto*DD=dyn_cast<DecompositionDecl>(V)){ json::Array bs; for(auto*B:DD->bindings()) { bs.push_back(varId(B)); } v["bind"]=std::move(bs);} 
        if(V->getInit()) { v["i"]=node(V->getInit()); ch.push_back(V->getInit()); } vs.push_back(std::move(v)); }
      o["vars"]=std::move(vs); }
    else if(isa<InitListExpr>(S)) { k="InitList"; auto*IL=cast<InitListExpr>(S); if(IL->isSemanticForm()==false && IL->getSemanticForm()) { } for(auto*I:IL->inits()) ch.push_back(I); auto_children=false; }
    else if(auto*FR=dyn_cast<CXXForRangeStmt>(S)){ k="ForRange"; auto_children=false; ch={FR->getRangeInit()}; o["lv"]=varId(FR->getLoopVariable()); for(auto*C:FR->children()) if(C&&C!=FR->getRangeInit()) ch.push_back(C); }
    else if(isa<IfStmt>(S)) k="If"; else if(isa<WhileStmt>(S)) k="While"; else if(isa<ForStmt>(S)) k="For"; else if(isa<DoStmt>(S)) k="Do"; else if(isa<CompoundStmt>(S)) k="Block";
    else if(isa<SwitchStmt>(S)) k="Switch"; 
    else if(auto*A=dyn_cast<GCCAsmStmt>(S)){ k="Asm"; o["asm"]=A->getAsmString()->getString().str(); json::Array os,is; 
      for(unsigned i=0;i<A->getNumOutputs();i++) os.push_back(json::Array{A->getOutputName(i).str(),A->getOutputConstraint(i).str()}); 
      for(unsigned i=0;i<A->getNumInputs();i++) is.push_back(json::Array{A->getInputName(i).str(),A->getInputConstraint(i).str()}); 
      o["outs"]=std::move(os); o["ins"]=std::move(is); }
    if(isa<ForStmt>(S)||isa<WhileStmt>(S)||isa<DoStmt>(S)||isa<CXXForRangeStmt>(S)||isa<IfStmt>(S)) o["le"]=lineOf(S->getEndLoc());
    if(auto*I=dyn_cast<IfStmt>(S)){ o["cond"]=node(I->getCond()); if(I->getThen()) o["then"]=node(I->getThen()); if(I->getElse()) o["else"]=node(I->getElse()); if(I->isConstexpr()) o["cx"]=true; }
    if(auto*I=dyn_cast<ForStmt>(S)){ if(I->getInit()) o["init"]=node(I->getInit()); if(I->getCond()) o["cond"]=node(I->getCond()); if(I->getInc()) o["inc"]=node(I->getInc()); o["body"]=node(I->getBody()); }
    if(auto*I=dyn_cast<WhileStmt>(S)){ o["cond"]=node(I->getCond()); o["body"]=node(I->getBody()); }
    if(auto*I=dyn_cast<DoStmt>(S)){ o["cond"]=node(I->getCond()); o["body"]=node(I->getBody()); }
    if(auto*I=dyn_cast<CXXForRangeStmt>(S)){ o["body"]=node(I->getBody()); o["range"]=node(I->getRangeInit()); }
    if(auto_children) for(const Stmt*C:S->children()) ch.push_back(C);
    json::Array ca; for(auto*C:ch) { ca.push_back(C?node(C):-1); }
    if(!ca.empty()) o["c"]=std::move(ca);
    if(isa<Expr>(S)&&S->getBeginLoc().isMacroID()&&fromMacro(S->getBeginLoc(),"assert")) o["as"]=true;
    o["k"]=k;
    F->nodes[id]=std::move(o);
    return id;
  }
  static bool isWrapper(const Stmt*S){ return strip(S)!=S; }

  void function(const FunctionDecl*D){
    const FunctionDecl*Def=nullptr; if(!D->hasBody(Def)) return; D=Def;
    if(D->isDependentContext()||D->isInvalidDecl()) return;
    if(!inScope(D->getLocation())) return;
    if(!D->getBody()) return;
    std::string key=fkey(D); if(!doneFuncs.insert(key).second) return;
    FnState st; FnState*save=F; F=&st;
    json::Object o; o["key"]=key; o["qn"]=plainQN(D); o["name"]=D->getNameAsString(); o["file"]=fileOf(D->getLocation()); o["line"]=lineOf(D->getLocation()); o["endline"]=lineOf(D->getEndLoc());
    if(D->isImplicit()||D->isDefaulted()) o["dfl"]=true;
    o["ret"]=typeId(D->getReturnType());
    json::Array ps; for(auto*P:D->parameters()) ps.push_back(varId(P)); o["params"]=std::move(ps);
    if(D->isTemplateInstantiation()) o["inst"]=true;
    { const FunctionDecl*Pat=D->getTemplateInstantiationPattern(); if(Pat) { o["pline"]=lineOf(Pat->getLocation()); } }
    if(auto*TA=D->getTemplateSpecializationArgs()){ json::Array ta; for(auto&A:TA->asArray()) argPush(ta,A); o["fta"]=std::move(ta);} 
    if(auto*M=dyn_cast<CXXMethodDecl>(D)){ o["cls"]=plainQN(M->getParent()); o["clst"]=typeId(QualType(M->getParent()->getTypeForDecl(),0)); o["acc"]=(int)M->getAccess(); if(M->isConst()) o["const"]=true; if(M->isStatic()) o["static"]=true;
      if(isa<CXXConstructorDecl>(M)){ auto*C=cast<CXXConstructorDecl>(M); o["kind"]= C->isCopyConstructor()?"cc":C->isMoveConstructor()?"mc":C->isDefaultConstructor()?"dc":"ctor"; if(C->isDelegatingConstructor()) o["deleg"]=true; }
      else if(isa<CXXDestructorDecl>(M)) o["kind"]="dtor"; else if(M->isCopyAssignmentOperator()) o["kind"]="ca"; else if(M->isMoveAssignmentOperator()) o["kind"]="ma"; 
      if(M->getParent()->isLambda()) o["lambda"]=true; }
    if(D->isOverloadedOperator()) o["op"]=getOperatorSpelling(D->getOverloadedOperator());
    if(auto*PF=dyn_cast_or_null<FunctionDecl>(D->getParentFunctionOrMethod())) o["parent"]=fkey(PF);
    else if(auto*M=dyn_cast<CXXMethodDecl>(D)) if(M->getParent()->isLambda()) if(auto*PF2=dyn_cast_or_null<FunctionDecl>(M->getParent()->getParentFunctionOrMethod())) o["parent"]=fkey(PF2);
    if(D->isExternC()) o["externc"]=true;
    if(auto*C=dyn_cast<CXXConstructorDecl>(D)){
      json::Array in; for(auto*I:C->inits()){ json::Object x; if(I->isMemberInitializer()||I->isIndirectMemberInitializer()) x["field"]=I->getAnyMember()->getNameAsString(); else if(I->isBaseInitializer()) x["base"]=typeStr(QualType(I->getBaseClass(),0)); else x["deleg"]=true; x["w"]=I->isWritten(); if(I->getInit()) x["i"]=node(I->getInit()); in.push_back(std::move(x)); }
      o["inits"]=std::move(in);
    }
    o["body"]=node(D->getBody());
    CFG::BuildOptions BO; BO.setAllAlwaysAdd(); BO.AddImplicitDtors=false; BO.AddInitializers=true; BO.AddTemporaryDtors=false; BO.PruneTriviallyFalseEdges=true; BO.AddCXXDefaultInitExprInCtors=true;
    auto cfg=CFG::buildCFG(D,D->getBody(),&Ctx,BO);
    if(cfg){
      json::Array bl;
      for(CFGBlock*B:*cfg){ json::Object b; b["id"]=(int)B->getBlockID();
        json::Array el; 
        for(auto&E:*B){
          if(auto CS=E.getAs<CFGStmt>()){ const Stmt*S=CS->getStmt(); if(isWrapper(S)) continue; el.push_back(node(S)); }
          else if(auto CI=E.getAs<CFGInitializer>()){ auto*I=CI->getInitializer(); json::Object x; if(I->isAnyMemberInitializer()) x["field"]=I->getAnyMember()->getNameAsString(); if(I->getInit()) x["i"]=node(I->getInit()); if(I->isBaseInitializer()) x["base"]=true; el.push_back(std::move(x)); }
        }
        b["e"]=std::move(el);
        if(const Stmt*T=B->getTerminatorStmt()) { b["tk"]=T->getStmtClassName(); b["tn"]=node(T); }
        if(B->getLabel()) { if(auto*CS=dyn_cast<CaseStmt>(B->getLabel())) { b["case"]=node(CS->getLHS()); } else if(isa<DefaultStmt>(B->getLabel())) b["default"]=true; else if(isa<CXXCatchStmt>(B->getLabel())) b["catch"]=true; }
        if(const Stmt*C=B->getLastCondition()) b["cond"]=node(C);
        if(B->hasNoReturnElement()) b["nr"]=true;
        json::Array su; for(auto&A:B->succs()){ if(CFGBlock*X=A.getReachableBlock()) su.push_back((int)X->getBlockID()); else su.push_back(-1); }
        b["s"]=std::move(su); bl.push_back(std::move(b)); }
      o["blocks"]=std::move(bl); o["entry"]=(int)cfg->getEntry().getBlockID(); o["exit"]=(int)cfg->getExit().getBlockID();
    } else o["nocfg"]=true;
    json::Array na; for(auto&n:st.nodes) na.push_back(std::move(n)); o["nodes"]=std::move(na);
    o["vars"]=std::move(st.varArr);
    F=save;
    *OS<<json::Value(json::Object{{"fn",std::move(o)}})<<"\n";
    for(auto*L:st.lambdas) function(L);
  }
};

struct V: RecursiveASTVisitor<V>{
  Dumper&D; V(Dumper&d):D(d){}
  bool shouldVisitTemplateInstantiations()const{return true;} bool shouldVisitImplicitCode()const{return true;}
  std::set<std::string> uninst; 
  bool VisitFunctionDecl(FunctionDecl*FD){ if(FD->doesThisDeclarationHaveABody()||FD->isDefaulted()) D.function(FD); return true; }
  bool VisitVarDecl(VarDecl*VD){ if(VD->hasGlobalStorage()&&!VD->isInvalidDecl()&&!VD->getType()->isDependentType()&&!VD->getDeclContext()->isDependentContext()) D.globalVar(VD); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl*R){ if(!R->isDependentType()&&R->isThisDeclarationADefinition()) D.recordInfo(R); return true; }
  bool VisitFunctionTemplateDecl(FunctionTemplateDecl*T){ if(T->isThisDeclarationADefinition()&&D.inScope(T->getLocation())){ bool any=false; for(auto*S:T->specializations()) if(S->isDefined()||S->hasBody()) any=true; 
      FunctionTemplateDecl*P=T->getInstantiatedFromMemberTemplate(); json::Object o; o["name"]=D.plainQN(T); o["file"]=D.fileOf(T->getLocation()); o["line"]=D.lineOf(T->getLocation()); o["inst"]=any; o["dep"]=T->getDeclContext()->isDependentContext(); o["frommember"]=P!=nullptr;
      *OS<<json::Value(json::Object{{"tmpl",std::move(o)}})<<"\n"; } return true; }
};

struct PPC: PPCallbacks { SourceManager&SM; PPC(SourceManager&s):SM(s){} };

struct Cons: ASTConsumer{
  void HandleTranslationUnit(ASTContext&C)override{
    if(C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
    json::Array ts; for(auto&t:D.types) ts.push_back(std::move(t));
    json::Object rs; for(auto&r:D.records) rs[r.first]=std::move(r.second);
    *OS<<json::Value(json::Object{{"types",std::move(ts)},{"records",std::move(rs)},{"globals",std::move(D.globals)}})<<"\n";
  }
};
struct Act: ASTFrontendAction{ std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&CI,StringRef)override{ CI.getDiagnostics().setWarningsAsErrors(false); return std::make_unique<Cons>(); } };

int main(int argc,char**argv){
  // extract PREFIX OUT SRC -- flags...
  if(argc<5){ llvm::errs()<<"usage: extract PREFIX OUT SRC -- flags\n"; return 2; }
  g_prefix=argv[1]; std::string out=argv[2], src=argv[3];
  std::vector<std::string> flags; for(int i=5;i<argc;i++) flags.push_back(argv[i]);
  std::error_code ec; llvm::raw_fd_ostream os(out,ec); OS=&os;
  tooling::FixedCompilationDatabase db(".",flags);
  tooling::ClangTool T(db,{src});
  // g++ accepts constexpr on functions whose return type is not literal, clang does not; constexpr on such a
  // function has no meaning for the analysis, so it is blanked (same column count) in the text clang reads.
  std::vector<std::pair<std::string,std::string>> mapped;
  for(auto&e: std::filesystem::recursive_directory_iterator(g_prefix)){
    if(!e.is_regular_file()) continue; std::string p=e.path().string();
    if(p.size()<3||(p.substr(p.size()-3)!=".hh"&&p.substr(p.size()-3)!=".cc")) continue;
    std::ifstream in(p); std::stringstream ss; ss<<in.rdbuf(); std::string t=ss.str(), o; bool ch=false;
    static const std::regex R("\\bconstexpr(\\s+)(?!(?:static|inline|const|auto|bool|int|unsigned|long|size_t|std::size_t|u?int(?:8|16|32|64)_t|std::u?int(?:8|16|32|64)_t|char|double|float|void|\\()\\b)([A-Za-z_][A-Za-z_0-9:<>,\\s&*]*?)([A-Za-z_][A-Za-z_0-9]*\\s*\\()");
    auto b=std::sregex_iterator(t.begin(),t.end(),R), z=std::sregex_iterator(); size_t last=0;
    for(auto i=b;i!=z;++i){ size_t pos=i->position(0); size_t q=pos; while(q>0&&isspace((unsigned char)t[q-1])) q--; if(q>=2&&t.substr(q-2,2)=="if") continue; 
      o+=t.substr(last,pos-last)+"inline   "; last=pos+9; ch=true; }
    if(ch){ o+=t.substr(last); mapped.emplace_back(p,o); }
  }
  for(auto&m:mapped) T.mapVirtualFile(m.first,m.second);
  int r=T.run(tooling::newFrontendActionFactory<Act>().get());
  os.flush(); return r?2:0;
}
