// cxx2json: exports, as JSON, the type-checked AST of every function whose
// definition lives under a given root directory (template instantiations
// included), plus records and constant globals.  No transformation is made
// other than dropping parentheses and temporaries bookkeeping nodes.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <string>
#include <vector>
#include <deque>
#include <set>

using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> Roots;

struct Exporter {
	ASTContext &Ctx;
	SourceManager &SM;
	PrintingPolicy PP;
	std::map<const Decl *, int> ids;
	std::deque<const FunctionDecl *> queue;
	std::set<const Decl *> queued;
	J::Array functions, records, globals, enums;
	std::set<const CXXRecordDecl *> recDone;
	std::set<const VarDecl *> varDone;

	Exporter(ASTContext &C)
		: Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts())
	{
		PP.SuppressTagKeyword = true;
		PP.Bool = true;
	}

	int id(const Decl *D)
	{
		D = D->getCanonicalDecl();
		auto it = ids.find(D);
		if (it != ids.end()) return it->second;
		int n = ids.size() + 1;
		ids[D] = n;
		return n;
	}
	std::string file(SourceLocation L)
	{
		L = SM.getExpansionLoc(L);
		return SM.getFilename(L).str();
	}
	unsigned line(SourceLocation L)
	{
		return SM.getExpansionLineNumber(L);
	}
	bool inRoot(const Decl *D)
	{
		std::string f = file(D->getLocation());
		for (auto &r : Roots)
			if (f.compare(0, r.size(), r) == 0) return true;
		return false;
	}
	std::string type(QualType T)
	{
		T = T.getCanonicalType();
		bool ref = T->isReferenceType();
		bool rref = T->isRValueReferenceType();
		QualType N = T.getNonReferenceType();
		bool ptr = false;
		std::string s;
		if (N->isPointerType() && !N->getPointeeType()->isFunctionType()) {
			ptr = true;
			N = N->getPointeeType();
		}
		bool cst = N.isConstQualified();
		if (auto *RD = N->getAsCXXRecordDecl()) {
			s = recName(RD);
		} else {
			s = N.getUnqualifiedType().getAsString(PP);
		}
		if (s.size() > 160) s = s.substr(0, 160);
		if (cst) s = "const " + s;
		if (ptr) s += " *";
		if (rref) s += " &&";
		else if (ref) s += " &";
		return s;
	}
	std::string recName(const CXXRecordDecl *RD)
	{
		std::string s;
		if (RD->isLambda()) {
			return "lambda#" + std::to_string(id(RD));
		}
		s = RD->getQualifiedNameAsString();
		if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
			// arguments only for class templates of the program and std containers
			std::string args;
			const auto &TA = SD->getTemplateArgs();
			for (unsigned i = 0; i < TA.size(); ++i) {
				if (i >= 2) break;
				if (!args.empty()) args += ",";
				args += targ(TA[i]);
			}
			if (args.size() < 300) s += "<" + args + ">";
		}
		return s;
	}
	std::string targ(const TemplateArgument &A)
	{
		switch (A.getKind()) {
		case TemplateArgument::Type: return type(A.getAsType());
		case TemplateArgument::Integral: {
			llvm::SmallString<32> s;
			A.getAsIntegral().toString(s, 10);
			return std::string(s.str());
		}
		case TemplateArgument::Pack: {
			std::string r;
			for (auto &p : A.pack_elements()) {
				if (!r.empty()) r += ",";
				r += targ(p);
			}
			return r;
		}
		default: return "?";
		}
	}

	// ---- declarations -------------------------------------------------
	void want(const FunctionDecl *F)
	{
		const FunctionDecl *Def = nullptr;
		if (!F->hasBody(Def) || !Def) return;
		if (!inRoot(Def)) return;
		if (Def->isDependentContext()) return;
		if (queued.insert(Def->getCanonicalDecl()).second) queue.push_back(Def);
	}

	J::Value declRef(const ValueDecl *D)
	{
		J::Object o;
		o["id"] = id(D);
		o["n"] = D->getNameAsString();
		o["q"] = D->getQualifiedNameAsString();
		o["t"] = type(D->getType());
		if (auto *F = dyn_cast<FunctionDecl>(D)) {
			o["dk"] = "fn";
			fnInfo(F, o);
		} else if (auto *P = dyn_cast<ParmVarDecl>(D)) {
			(void)P;
			o["dk"] = "parm";
		} else if (auto *V = dyn_cast<VarDecl>(D)) {
			o["dk"] = V->hasGlobalStorage() ? "gvar" : "var";
			if (V->hasGlobalStorage()) global(V);
		} else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
			o["dk"] = "enum";
			llvm::SmallString<32> s;
			E->getInitVal().toString(s, 10);
			o["v"] = std::string(s.str());
		} else if (isa<FieldDecl>(D)) {
			o["dk"] = "field";
		} else {
			o["dk"] = "other";
		}
		return std::move(o);
	}

	void fnInfo(const FunctionDecl *F, J::Object &o)
	{
		want(F);
		const FunctionDecl *Def = nullptr;
		bool has = F->hasBody(Def) && Def && inRoot(Def) && !Def->isDependentContext();
		o["body"] = has;
		if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
			o["cls"] = recName(M->getParent());
			o["virtual"] = M->isVirtual();
			o["static"] = M->isStatic();
			if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
				o["copy"] = C->isCopyConstructor();
				o["move"] = C->isMoveConstructor();
				o["defctor"] = C->isDefaultConstructor();
			} else {
				o["copyassign"] = M->isCopyAssignmentOperator();
				o["moveassign"] = M->isMoveAssignmentOperator();
			}
			o["implicit"] = F->isImplicit() || F->isDefaulted();
		}
		if (auto *TA = F->getTemplateSpecializationArgs()) {
			J::Array a;
			for (unsigned i = 0; i < TA->size(); ++i) a.push_back(targ((*TA)[i]));
			o["targs"] = std::move(a);
		}
	}

	void global(const VarDecl *V)
	{
		V = V->getCanonicalDecl();
		if (!varDone.insert(V).second) return;
		const VarDecl *Def = V->getDefinition();
		if (!Def) Def = V;
		if (!inRoot(Def)) return;
		J::Object o;
		o["id"] = id(V);
		o["n"] = V->getNameAsString();
		o["q"] = V->getQualifiedNameAsString();
		o["t"] = type(V->getType());
		o["const"] = V->getType().isConstQualified();
		if (Def->getInit()) o["init"] = expr(Def->getInit());
		globals.push_back(std::move(o));
	}

	void record(const CXXRecordDecl *RD)
	{
		if (!RD) return;
		RD = RD->getDefinition();
		if (!RD || RD->isDependentContext()) return;
		if (!recDone.insert(RD).second) return;
		if (!inRoot(RD)) return;
		J::Object o;
		o["n"] = recName(RD);
		J::Array bases, fields;
		for (auto &B : RD->bases()) {
			bases.push_back(type(B.getType()));
			record(B.getType()->getAsCXXRecordDecl());
		}
		for (auto *F : RD->fields()) {
			J::Object f;
			f["id"] = id(F);
			f["n"] = F->getNameAsString();
			f["t"] = type(F->getType());
			if (F->hasInClassInitializer() && F->getInClassInitializer())
				f["init"] = expr(F->getInClassInitializer());
			fields.push_back(std::move(f));
			if (auto *FR = F->getType().getNonReferenceType()->getAsCXXRecordDecl())
				record(FR);
		}
		for (auto *C : RD->ctors()) {
			if (!C->isImplicit()) want(C);
		}
		for (auto *M : RD->methods()) want(M);
		o["bases"] = std::move(bases);
		o["fields"] = std::move(fields);
		o["lambda"] = RD->isLambda();
		bool userdef = false;
		J::Array ctors;
		for (auto *C : RD->ctors()) {
			J::Object c;
			c["id"] = id(C);
			J::Array ps;
			for (auto *P : C->parameters()) ps.push_back(type(P->getType()));
			c["params"] = std::move(ps);
			c["user"] = C->isUserProvided();
			ctors.push_back(std::move(c));
		}
		(void)userdef;
		o["ctors"] = std::move(ctors);
		records.push_back(std::move(o));
	}

	void exportAll()
	{
		while (!queue.empty()) {
			const FunctionDecl *F = queue.front();
			queue.pop_front();
			functions.push_back(function(F));
		}
	}

	J::Value function(const FunctionDecl *F)
	{
		J::Object o;
		o["id"] = id(F);
		o["n"] = F->getNameAsString();
		o["q"] = F->getQualifiedNameAsString();
		o["t"] = type(F->getReturnType());
		o["file"] = file(F->getLocation());
		o["line"] = line(F->getLocation());
		o["endline"] = line(F->getBodyRBrace());
		fnInfo(F, o);
		J::Array ps;
		for (auto *P : F->parameters()) {
			J::Object p;
			p["id"] = id(P);
			p["n"] = P->getNameAsString();
			p["t"] = type(P->getType());
			if (auto *R = P->getType().getNonReferenceType()->getAsCXXRecordDecl()) record(R);
			ps.push_back(std::move(p));
		}
		o["params"] = std::move(ps);
		if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
			J::Array inits;
			for (auto *I : C->inits()) {
				J::Object i;
				if (I->isAnyMemberInitializer()) {
					i["field"] = I->getAnyMember()->getNameAsString();
					i["t"] = type(I->getAnyMember()->getType());
				} else if (I->isBaseInitializer()) {
					i["base"] = type(QualType(I->getBaseClass(), 0));
				} else {
					i["delegating"] = true;
				}
				i["init"] = expr(I->getInit());
				i["written"] = I->isWritten();
				inits.push_back(std::move(i));
			}
			o["inits"] = std::move(inits);
		}
		if (auto *M = dyn_cast<CXXMethodDecl>(F)) record(M->getParent());
		o["s"] = stmt(F->getBody());
		return std::move(o);
	}

	// ---- statements ---------------------------------------------------
	J::Value stmt(const Stmt *S)
	{
		if (!S) return nullptr;
		if (auto *E = dyn_cast<Expr>(S)) {
			J::Object o;
			o["k"] = "ExprStmt";
			o["l"] = line(S->getBeginLoc());
			o["e"] = expr(E);
			return std::move(o);
		}
		J::Object o;
		o["l"] = line(S->getBeginLoc());
		switch (S->getStmtClass()) {
		case Stmt::CompoundStmtClass: {
			o["k"] = "Compound";
			J::Array a;
			for (auto *c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
			o["b"] = std::move(a);
			break;
		}
		case Stmt::DeclStmtClass: {
			o["k"] = "Decl";
			J::Array a;
			for (auto *D : cast<DeclStmt>(S)->decls()) {
				if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V));
				else if (auto *R = dyn_cast<CXXRecordDecl>(D)) record(R);
			}
			o["d"] = std::move(a);
			break;
		}
		case Stmt::IfStmtClass: {
			auto *I = cast<IfStmt>(S);
			o["k"] = "If";
			if (I->getInit()) o["init"] = stmt(I->getInit());
			if (I->getConditionVariable()) o["cv"] = var(I->getConditionVariable());
			o["c"] = expr(I->getCond());
			o["a"] = stmt(I->getThen());
			if (I->getElse()) o["b"] = stmt(I->getElse());
			break;
		}
		case Stmt::ForStmtClass: {
			auto *F = cast<ForStmt>(S);
			o["k"] = "For";
			o["init"] = stmt(F->getInit());
			o["c"] = F->getCond() ? expr(F->getCond()) : J::Value(nullptr);
			o["inc"] = F->getInc() ? expr(F->getInc()) : J::Value(nullptr);
			o["b"] = stmt(F->getBody());
			break;
		}
		case Stmt::WhileStmtClass: {
			auto *W = cast<WhileStmt>(S);
			o["k"] = "While";
			o["c"] = expr(W->getCond());
			o["b"] = stmt(W->getBody());
			break;
		}
		case Stmt::DoStmtClass: {
			auto *W = cast<DoStmt>(S);
			o["k"] = "Do";
			o["c"] = expr(W->getCond());
			o["b"] = stmt(W->getBody());
			break;
		}
		case Stmt::CXXForRangeStmtClass: {
			auto *R = cast<CXXForRangeStmt>(S);
			o["k"] = "RangeFor";
			o["var"] = var(R->getLoopVariable());
			o["range"] = expr(R->getRangeInit());
			o["b"] = stmt(R->getBody());
			break;
		}
		case Stmt::SwitchStmtClass: {
			auto *W = cast<SwitchStmt>(S);
			o["k"] = "Switch";
			o["c"] = expr(W->getCond());
			o["b"] = stmt(W->getBody());
			break;
		}
		case Stmt::CaseStmtClass: {
			auto *C = cast<CaseStmt>(S);
			o["k"] = "Case";
			Expr::EvalResult R;
			if (C->getLHS()->EvaluateAsInt(R, Ctx)) {
				llvm::SmallString<32> s;
				R.Val.getInt().toString(s, 10);
				o["v"] = std::string(s.str());
			}
			o["b"] = stmt(C->getSubStmt());
			break;
		}
		case Stmt::DefaultStmtClass:
			o["k"] = "Default";
			o["b"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
			break;
		case Stmt::BreakStmtClass: o["k"] = "Break"; break;
		case Stmt::ContinueStmtClass: o["k"] = "Continue"; break;
		case Stmt::NullStmtClass: o["k"] = "Null"; break;
		case Stmt::ReturnStmtClass: {
			auto *R = cast<ReturnStmt>(S);
			o["k"] = "Return";
			if (R->getRetValue()) o["e"] = expr(R->getRetValue());
			break;
		}
		case Stmt::CXXTryStmtClass: {
			auto *T = cast<CXXTryStmt>(S);
			o["k"] = "Try";
			o["b"] = stmt(T->getTryBlock());
			J::Array h;
			for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
				auto *H = T->getHandler(i);
				J::Object ho;
				if (H->getExceptionDecl()) {
					ho["t"] = type(H->getExceptionDecl()->getType());
					ho["id"] = id(H->getExceptionDecl());
				}
				ho["b"] = stmt(H->getHandlerBlock());
				h.push_back(std::move(ho));
			}
			o["h"] = std::move(h);
			break;
		}
		case Stmt::GCCAsmStmtClass: {
			auto *A = cast<GCCAsmStmt>(S);
			if (A->getNumOutputs() == 0 && A->getAsmString()->getString().empty()) o["k"] = "Null";
			else { o["k"] = "Unsupported"; o["what"] = "asm"; }
			break;
		}
		case Stmt::AttributedStmtClass:
			return stmt(cast<AttributedStmt>(S)->getSubStmt());
		default:
			o["k"] = "Unsupported";
			o["what"] = S->getStmtClassName();
		}
		return std::move(o);
	}

	J::Value var(const VarDecl *V)
	{
		J::Object o;
		o["id"] = id(V);
		o["n"] = V->getNameAsString();
		o["t"] = type(V->getType());
		if (V->isStaticLocal()) o["static"] = true;
		if (V->getType()->isConstantArrayType()) {
			arrayDims(V->getType(), o);
		}
		if (auto *R = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) record(R);
		if (V->getInit()) o["init"] = expr(V->getInit());
		return std::move(o);
	}
	void arrayDims(QualType T, J::Object &o)
	{
		J::Array d;
		while (auto *A = Ctx.getAsConstantArrayType(T)) {
			d.push_back((int64_t)A->getSize().getZExtValue());
			T = A->getElementType();
		}
		o["dims"] = std::move(d);
		o["et"] = type(T);
	}

	// ---- expressions --------------------------------------------------
	J::Value args(llvm::iterator_range<CallExpr::const_arg_iterator> r)
	{
		J::Array a;
		for (auto *e : r) a.push_back(expr(e));
		return std::move(a);
	}

	J::Value expr(const Expr *E)
	{
		if (!E) return nullptr;
		// transparent wrappers
		if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
		if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
		if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
		if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
		if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
		if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
		if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
		if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());

		J::Object o;
		o["t"] = type(E->getType());
		switch (E->getStmtClass()) {
		case Stmt::IntegerLiteralClass: {
			o["k"] = "Int";
			llvm::SmallString<32> s;
			cast<IntegerLiteral>(E)->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
			o["v"] = std::string(s.str());
			break;
		}
		case Stmt::FloatingLiteralClass: {
			o["k"] = "Float";
			auto *F = cast<FloatingLiteral>(E);
			SourceLocation L = SM.getSpellingLoc(E->getBeginLoc());
			llvm::SmallVector<char, 64> buf;
			std::string txt = Lexer::getSpelling(L, buf, SM, Ctx.getLangOpts()).str();
			o["txt"] = txt;
			llvm::SmallString<64> s;
			F->getValue().toString(s, 0, 0);
			o["v"] = std::string(s.str());
			break;
		}
		case Stmt::CharacterLiteralClass:
			o["k"] = "Int";
			o["v"] = std::to_string(cast<CharacterLiteral>(E)->getValue());
			break;
		case Stmt::CXXBoolLiteralExprClass:
			o["k"] = "Bool";
			o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue();
			break;
		case Stmt::StringLiteralClass:
			o["k"] = "Str";
			{
				std::string s;
				auto *SL = cast<StringLiteral>(E);
				if (SL->getCharByteWidth() == 1) s = SL->getBytes().str();
				if (!J::isUTF8(s)) s = J::fixUTF8(s);
				o["v"] = s;
			}
			break;
		case Stmt::CXXNullPtrLiteralExprClass:
		case Stmt::GNUNullExprClass: o["k"] = "Null"; break;
		case Stmt::CXXThisExprClass: o["k"] = "This"; break;
		case Stmt::PredefinedExprClass:
			o["k"] = "Str";
			o["v"] = "__func__";
			break;
		case Stmt::DeclRefExprClass: {
			auto *D = cast<DeclRefExpr>(E);
			o["k"] = "Ref";
			o["d"] = declRef(D->getDecl());
			// constant-evaluable references from outside the root (e.g. std constants)
			if (isa<VarDecl>(D->getDecl()) && !inRoot(D->getDecl())) {
				Expr::EvalResult R;
				if (!E->isInstantiationDependent() && E->EvaluateAsRValue(R, Ctx) && R.Val.isInt()) {
					llvm::SmallString<32> s;
					R.Val.getInt().toString(s, 10);
					o["cv"] = std::string(s.str());
				}
			}
			break;
		}
		case Stmt::MemberExprClass: {
			auto *M = cast<MemberExpr>(E);
			o["k"] = "Member";
			o["b"] = expr(M->getBase());
			o["n"] = M->getMemberDecl()->getNameAsString();
			o["arrow"] = M->isArrow();
			o["d"] = declRef(M->getMemberDecl());
			break;
		}
		case Stmt::CallExprClass:
		case Stmt::CXXMemberCallExprClass:
		case Stmt::UserDefinedLiteralClass:
		case Stmt::CXXOperatorCallExprClass: {
			auto *C = cast<CallExpr>(E);
			bool mem = isa<CXXMemberCallExpr>(E);
			bool op = isa<CXXOperatorCallExpr>(E);
			o["k"] = mem ? "MCall" : op ? "OpCall" : "Call";
			o["l"] = line(E->getBeginLoc());
			if (auto *F = C->getDirectCallee()) o["f"] = declRef(F);
			else o["callee"] = expr(C->getCallee());
			if (mem) {
				auto *MC = cast<CXXMemberCallExpr>(E);
				o["obj"] = expr(MC->getImplicitObjectArgument());
				if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
					o["arrow"] = ME->isArrow();
					o["qualcall"] = ME->hasQualifier();
				}
			}
			if (op) {
				auto *OC = cast<CXXOperatorCallExpr>(E);
				o["op"] = getOperatorSpelling(OC->getOperator());
				o["ismem"] = C->getDirectCallee() && isa<CXXMethodDecl>(C->getDirectCallee());
			}
			o["a"] = args(C->arguments());
			break;
		}
		case Stmt::CXXTemporaryObjectExprClass:
		case Stmt::CXXConstructExprClass: {
			auto *C = cast<CXXConstructExpr>(E);
			o["k"] = "Construct";
			o["cls"] = recName(C->getConstructor()->getParent());
			o["list"] = C->isListInitialization();
			o["initlist"] = C->isStdInitListInitialization();
			o["f"] = declRef(C->getConstructor());
			o["l"] = line(E->getBeginLoc());
			record(C->getConstructor()->getParent());
			J::Array a;
			for (auto *x : C->arguments()) a.push_back(expr(x));
			o["a"] = std::move(a);
			break;
		}
		case Stmt::InitListExprClass: {
			auto *I = cast<InitListExpr>(E);
			o["k"] = "InitList";
			if (I->getType()->isConstantArrayType()) arrayDims(I->getType(), o);
			J::Array a;
			for (auto *x : I->inits()) a.push_back(expr(x));
			o["a"] = std::move(a);
			break;
		}
		case Stmt::CXXStdInitializerListExprClass:
			return expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
		case Stmt::ImplicitValueInitExprClass:
		case Stmt::CXXScalarValueInitExprClass: o["k"] = "ZeroInit"; break;
		case Stmt::ArrayInitLoopExprClass:
			o["k"] = "ArrayCopy";
			o["e"] = expr(cast<ArrayInitLoopExpr>(E)->getCommonExpr()->getSourceExpr());
			break;
		case Stmt::ImplicitCastExprClass:
		case Stmt::CStyleCastExprClass:
		case Stmt::CXXFunctionalCastExprClass:
		case Stmt::CXXStaticCastExprClass:
		case Stmt::CXXConstCastExprClass:
		case Stmt::CXXReinterpretCastExprClass: {
			auto *C = cast<CastExpr>(E);
			o["k"] = "Cast";
			o["ck"] = C->getCastKindName();
			o["e"] = expr(C->getSubExpr());
			o["ft"] = type(C->getSubExpr()->getType());
			break;
		}
		case Stmt::UnaryOperatorClass: {
			auto *U = cast<UnaryOperator>(E);
			o["k"] = "Un";
			o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
			o["post"] = U->isPostfix();
			o["e"] = expr(U->getSubExpr());
			break;
		}
		case Stmt::BinaryOperatorClass:
		case Stmt::CompoundAssignOperatorClass: {
			auto *B = cast<BinaryOperator>(E);
			o["k"] = "Bin";
			o["op"] = B->getOpcodeStr().str();
			o["a"] = expr(B->getLHS());
			o["b"] = expr(B->getRHS());
			o["l"] = line(B->getOperatorLoc());
			if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) {
				o["ct"] = type(CA->getComputationResultType());
			}
			break;
		}
		case Stmt::ConditionalOperatorClass: {
			auto *C = cast<ConditionalOperator>(E);
			o["k"] = "Cond";
			o["c"] = expr(C->getCond());
			o["a"] = expr(C->getTrueExpr());
			o["b"] = expr(C->getFalseExpr());
			break;
		}
		case Stmt::ArraySubscriptExprClass: {
			auto *A = cast<ArraySubscriptExpr>(E);
			o["k"] = "Index";
			o["a"] = expr(A->getBase());
			o["b"] = expr(A->getIdx());
			break;
		}
		case Stmt::LambdaExprClass: {
			auto *L = cast<LambdaExpr>(E);
			o["k"] = "Lambda";
			J::Array caps;
			auto ci = L->capture_init_begin();
			for (auto &c : L->captures()) {
				J::Object co;
				if (c.capturesVariable()) {
					co["id"] = id(c.getCapturedVar());
					co["n"] = c.getCapturedVar()->getNameAsString();
					co["ref"] = c.getCaptureKind() == LCK_ByRef;
					co["init"] = expr(*ci);
				} else if (c.capturesThis()) {
					co["this"] = true;
				}
				++ci;
				caps.push_back(std::move(co));
			}
			o["caps"] = std::move(caps);
			auto *M = L->getCallOperator();
			if (!M->isDependentContext()) {
				J::Array ps;
				for (auto *P : M->parameters()) {
					J::Object p;
					p["id"] = id(P);
					p["n"] = P->getNameAsString();
					p["t"] = type(P->getType());
					ps.push_back(std::move(p));
				}
				o["params"] = std::move(ps);
				o["s"] = stmt(L->getBody());
				o["rt"] = type(M->getReturnType());
				o["opid"] = id(M);
			}
			break;
		}
		case Stmt::UnaryExprOrTypeTraitExprClass: {
			Expr::EvalResult R;
			if (E->EvaluateAsInt(R, Ctx)) {
				o["k"] = "Int";
				llvm::SmallString<32> s;
				R.Val.getInt().toString(s, 10);
				o["v"] = std::string(s.str());
			} else o["k"] = "Unsupported";
			break;
		}
		case Stmt::CXXThrowExprClass: o["k"] = "Throw"; break;
		case Stmt::CXXNewExprClass: o["k"] = "New"; break;
		case Stmt::CXXDeleteExprClass: o["k"] = "Delete"; break;
		default:
			o["k"] = "Unsupported";
			o["what"] = E->getStmtClassName();
		}
		return std::move(o);
	}
};

struct Visitor : RecursiveASTVisitor<Visitor> {
	Exporter &X;
	explicit Visitor(Exporter &X) : X(X) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	bool VisitFunctionDecl(FunctionDecl *F)
	{
		if (F->isThisDeclarationADefinition() && X.inRoot(F) && !F->isDependentContext()) {
			if (auto *M = dyn_cast<CXXMethodDecl>(F))
				if (M->getParent()->isLambda()) return true;
			X.want(F);
		}
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl *R)
	{
		if (R->isThisDeclarationADefinition() && X.inRoot(R) && !R->isDependentContext() &&
		    !R->isLambda())
			X.record(R);
		return true;
	}
	bool VisitEnumDecl(EnumDecl *E)
	{
		if (!X.inRoot(E) || E->getDeclContext()->isDependentContext()) return true;
		J::Object o;
		o["q"] = E->getQualifiedNameAsString();
		J::Array a;
		for (auto *c : E->enumerators()) {
			llvm::SmallString<32> v;
			c->getInitVal().toString(v, 10);
			a.push_back(J::Array{c->getNameAsString(), std::string(v.str())});
		}
		o["c"] = std::move(a);
		X.enums.push_back(std::move(o));
		return true;
	}
	bool VisitVarDecl(VarDecl *V)
	{
		if (V->hasGlobalStorage() && !V->isStaticLocal() && X.inRoot(V) &&
		    !V->getDeclContext()->isDependentContext() && !V->isTemplated())
			X.global(V);
		return true;
	}
};

struct Consumer : ASTConsumer {
	void HandleTranslationUnit(ASTContext &C) override
	{
		if (C.getDiagnostics().hasErrorOccurred()) return;
		Exporter X(C);
		Visitor V(X);
		V.TraverseDecl(C.getTranslationUnitDecl());
		X.exportAll();
		J::Object o;
		o["functions"] = std::move(X.functions);
		o["records"] = std::move(X.records);
		o["globals"] = std::move(X.globals);
		o["enums"] = std::move(X.enums);
		llvm::outs() << J::Value(std::move(o)) << "\n";
	}
};
struct Action : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
	{ return std::make_unique<Consumer>(); }
};
struct Factory : tooling::FrontendActionFactory {
	std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

// usage: cxx2json <root>[:<root>...] <file> -- <compiler args>
int main(int argc, const char **argv)
{
	if (argc < 4) return 2;
	std::string r = argv[1];
	size_t p = 0;
	while (p <= r.size()) {
		size_t q = r.find(':', p);
		if (q == std::string::npos) q = r.size();
		Roots.push_back(r.substr(p, q - p));
		p = q + 1;
	}
	std::vector<std::string> files{argv[2]};
	std::vector<std::string> rest;
	for (int i = 4; i < argc; ++i) rest.push_back(argv[i]);
	tooling::FixedCompilationDatabase DB(".", rest);
	tooling::ClangTool T(DB, files);
	Factory F;
	return T.run(&F);
}
