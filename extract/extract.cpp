// brk-extract: dumps the type-checked program of /repo/src (functions, classes, variables) as JSON.
//
// usage: brk-extract --root <dir> --out <file> <source> -- <compiler flags>
//
// Every function with a body that is located below <dir> is written as a structured tree in which callees, overload
// choices, types, implicit conversions of interest and template instantiations are already resolved by clang.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Root;

static std::string usrOf(const Decl *d)
{
	llvm::SmallString<128> buf;
	if (index::generateUSRForDecl(d, buf)) return "";
	return std::string(buf.str());
}

class Emitter
{
public:
	ASTContext &C;
	SourceManager &SM;
	PrintingPolicy PP;

	Emitter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
	{
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
		PP.PrintCanonicalTypes = true;
		PP.Bool = true;
		PP.SuppressInlineNamespace = true;
	}

	std::string ty(QualType t)
	{
		if (t.isNull()) return "";
		return t.getCanonicalType().getAsString(PP);
	}

	std::string fileOf(SourceLocation l)
	{
		l = SM.getExpansionLoc(l);
		auto f = SM.getFilename(l);
		return f.str();
	}

	bool inRoot(SourceLocation l)
	{
		if (l.isInvalid()) return false;
		llvm::SmallString<256> p(fileOf(l));
		if (p.empty()) return false;
		if (auto fe = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(l)))) {
			auto rp = fe->getFileEntry().tryGetRealPathName();
			if (!rp.empty()) p = rp;
		}
		return llvm::StringRef(p).starts_with(Root);
	}

	std::string shortFile(SourceLocation l)
	{
		llvm::SmallString<256> p(fileOf(l));
		if (auto fe = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(l)))) {
			auto rp = fe->getFileEntry().tryGetRealPathName();
			if (!rp.empty()) p = rp;
		}
		llvm::StringRef s(p);
		if (s.starts_with(Root)) return s.substr(Root.size()).ltrim('/').str();
		return s.str();
	}

	int64_t lineOf(SourceLocation l)
	{
		return (int64_t) SM.getExpansionLineNumber(l);
	}

	std::string localId(const ValueDecl *d)
	{
		auto l = SM.getExpansionLoc(d->getLocation());
		std::string file = shortFile(l);
		return file + ":" + std::to_string(SM.getFileOffset(l)) + ":" + d->getNameAsString();
	}

	std::string qual(const NamedDecl *d)
	{
		std::string s;
		llvm::raw_string_ostream os(s);
		PrintingPolicy p = PP;
		p.SuppressTemplateArgsInCXXConstructors = true;
		d->printQualifiedName(os, p);
		os.flush();
		return s;
	}

	static std::string clsName(const DeclContext *dc)
	{
		if (auto r = dyn_cast_or_null<CXXRecordDecl>(dc)) {
			return r->getQualifiedNameAsString();
		}
		return "";
	}

	char passMode(QualType t)
	{
		if (t->isLValueReferenceType()) {
			return t->getPointeeType().isConstQualified() ? 'c' : 'r';
		}
		if (t->isRValueReferenceType()) return 'm';
		if (t->isPointerType()) {
			return t->getPointeeType().isConstQualified() ? 'q' : 'p';
		}
		return 'v';
	}

	json::Value fn(const FunctionDecl *f)
	{
		json::Object o;
		o["usr"] = usrOf(f);
		std::string q = f->getQualifiedNameAsString();
		o["q"] = q;
		o["n"] = f->getNameAsString();
		std::string cls;
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			cls = m->getParent()->getQualifiedNameAsString();
			o["cls"] = cls;
			o["mconst"] = m->isConst();
			o["virt"] = m->isVirtual();
			o["static"] = m->isStatic();
			if (m->getParent()->isLambda()) o["lam"] = true;
		}
		if (isa<CXXConstructorDecl>(f)) {
			auto c = cast<CXXConstructorDecl>(f);
			o["kind"] = "ctor";
			if (c->isCopyOrMoveConstructor()) o["cm"] = c->isMoveConstructor() ? "move" : "copy";
		} else if (isa<CXXDestructorDecl>(f)) {
			o["kind"] = "dtor";
		} else if (isa<CXXConversionDecl>(f)) {
			o["kind"] = "conv";
		} else if (isa<CXXMethodDecl>(f)) {
			o["kind"] = "method";
		} else {
			o["kind"] = "func";
		}
		if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
		std::string modes;
		json::Array pts;
		for (auto p : f->parameters()) {
			modes += passMode(p->getType());
			pts.push_back(ty(p->getType()));
		}
		o["pm"] = modes;
		o["pt"] = std::move(pts);
		o["rt"] = ty(f->getReturnType());
		o["repo"] = inRoot(f->getLocation());
		if (f->isNoReturn()) o["noreturn"] = true;
		if (auto ta = f->getTemplateSpecializationArgs()) {
			json::Array a;
			for (auto &x : ta->asArray()) {
				if (x.getKind() == TemplateArgument::Type) a.push_back(ty(x.getAsType()));
			}
			o["targs"] = std::move(a);
		}
		return o;
	}

	json::Value loc(json::Object o, SourceLocation l)
	{
		o["L"] = lineOf(l);
		return o;
	}

	json::Value expr(const Expr *e)
	{
		if (!e) return nullptr;
		json::Object o;
		auto fin = [&](json::Object x) -> json::Value {
			x["L"] = lineOf(e->getExprLoc());
			return x;
		};
		switch (e->getStmtClass()) {
		case Stmt::ParenExprClass: return expr(cast<ParenExpr>(e)->getSubExpr());
		case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(e)->getSubExpr());
		case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(e)->getSubExpr());
		case Stmt::MaterializeTemporaryExprClass: return expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
		case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
		case Stmt::CXXDefaultArgExprClass: {
			auto v = expr(cast<CXXDefaultArgExpr>(e)->getExpr());
			return v;
		}
		case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
		case Stmt::SubstNonTypeTemplateParmExprClass:
			return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
		case Stmt::CXXStdInitializerListExprClass: return expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
		case Stmt::CXXRewrittenBinaryOperatorClass:
			return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
		default: break;
		}
		if (auto ic = dyn_cast<ImplicitCastExpr>(e)) {
			switch (ic->getCastKind()) {
			case CK_IntegralCast:
			case CK_IntegralToFloating:
			case CK_FloatingToIntegral: {
				o["k"] = "cast";
				o["impl"] = true;
				o["e"] = expr(ic->getSubExpr());
				o["ty"] = ty(e->getType());
				o["from"] = ty(ic->getSubExpr()->getType());
				return fin(std::move(o));
			}
			case CK_NullToPointer: {
				o["k"] = "null";
				return fin(std::move(o));
			}
			default: return expr(ic->getSubExpr());
			}
		}
		if (auto ce = dyn_cast<ExplicitCastExpr>(e)) {
			// functional casts that just call a constructor, etc.
			auto ck = ce->getCastKind();
			if (ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion || ck == CK_NoOp) {
				return expr(ce->getSubExpr());
			}
			o["k"] = "cast";
			o["impl"] = false;
			o["void"] = ck == CK_ToVoid;
			o["e"] = expr(ce->getSubExpr());
			o["ty"] = ty(e->getType());
			o["from"] = ty(ce->getSubExpr()->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<IntegerLiteral>(e)) {
			o["k"] = "int";
			llvm::SmallString<32> s;
			x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
			o["v"] = std::string(s.str());
			o["ty"] = ty(e->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<CharacterLiteral>(e)) {
			o["k"] = "char";
			o["v"] = (int64_t) x->getValue();
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) {
			o["k"] = "bool";
			o["v"] = x->getValue();
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<FloatingLiteral>(e)) {
			o["k"] = "float";
			o["v"] = x->getValueAsApproximateDouble();
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<StringLiteral>(e)) {
			o["k"] = "str";
			std::string s = x->getCharByteWidth() == 1 ? x->getBytes().str() : "";
			if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
			o["v"] = s;
			return fin(std::move(o));
		}
		if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
			o["k"] = "null";
			return fin(std::move(o));
		}
		if (isa<CXXThisExpr>(e)) {
			o["k"] = "this";
			o["ty"] = ty(e->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<DeclRefExpr>(e)) {
			auto d = x->getDecl();
			if (auto f = dyn_cast<FunctionDecl>(d)) {
				o["k"] = "fnref";
				o["fn"] = fn(f);
				return fin(std::move(o));
			}
			if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
				o["k"] = "enum";
				o["q"] = ec->getQualifiedNameAsString();
				llvm::SmallString<32> s;
				ec->getInitVal().toString(s, 10);
				o["v"] = std::string(s.str());
				return fin(std::move(o));
			}
			o["k"] = "ref";
			o["n"] = d->getNameAsString();
			if (auto v = dyn_cast<VarDecl>(d)) {
				if (v->hasGlobalStorage() && !v->isStaticLocal()) {
					o["g"] = true;
					o["id"] = v->getQualifiedNameAsString();
				} else {
					o["id"] = localId(v);
				}
				if (v->isStaticLocal()) o["sl"] = true;
			} else {
				o["id"] = localId(d);
			}
			if (auto b = dyn_cast<BindingDecl>(d)) {
				o["binding"] = true;
			}
			o["ty"] = ty(d->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<MemberExpr>(e)) {
			auto d = x->getMemberDecl();
			if (auto v = dyn_cast<VarDecl>(d)) { // static data member
				o["k"] = "ref";
				o["n"] = v->getNameAsString();
				o["g"] = true;
				o["id"] = v->getQualifiedNameAsString();
				o["ty"] = ty(v->getType());
				return fin(std::move(o));
			}
			if (auto f = dyn_cast<FunctionDecl>(d)) {
				o["k"] = "fnref";
				o["fn"] = fn(f);
				o["base"] = expr(x->getBase());
				return fin(std::move(o));
			}
			if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
				o["k"] = "enum";
				o["q"] = ec->getQualifiedNameAsString();
				llvm::SmallString<32> s;
				ec->getInitVal().toString(s, 10);
				o["v"] = std::string(s.str());
				return fin(std::move(o));
			}
			o["k"] = "mem";
			o["f"] = d->getNameAsString();
			o["arrow"] = x->isArrow();
			o["base"] = expr(x->getBase());
			o["ty"] = ty(e->getType());
			if (auto fd = dyn_cast<FieldDecl>(d)) {
				o["cls"] = fd->getParent()->getQualifiedNameAsString();
				if (fd->getType()->isReferenceType()) o["isref"] = true;
				o["ty"] = ty(fd->getType());
			}
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
			o["k"] = "call";
			if (auto m = x->getMethodDecl()) {
				o["fn"] = fn(m);
				o["obj"] = expr(x->getImplicitObjectArgument());
				bool arrow = false;
				bool qualified = false;
				if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) {
					arrow = me->isArrow();
					qualified = me->hasQualifier();
				}
				o["arrow"] = arrow;
				if (qualified) o["qualified"] = true;
				o["oty"] = ty(x->getImplicitObjectArgument()->getType());
			} else {
				o["callee"] = expr(x->getCallee());
			}
			o["args"] = args(x->arguments());
			o["ty"] = ty(e->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
			o["k"] = "call";
			o["op"] = getOperatorSpelling(x->getOperator());
			if (auto f = x->getDirectCallee()) {
				o["fn"] = fn(f);
				if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
					o["obj"] = expr(x->getArg(0));
					o["oty"] = ty(x->getArg(0)->getType());
					json::Array a;
					for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
					o["args"] = std::move(a);
				} else {
					o["args"] = args(x->arguments());
				}
			} else {
				o["args"] = args(x->arguments());
			}
			o["ty"] = ty(e->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<CallExpr>(e)) {
			o["k"] = "call";
			if (auto f = x->getDirectCallee()) {
				o["fn"] = fn(f);
			} else {
				o["callee"] = expr(x->getCallee());
			}
			o["args"] = args(x->arguments());
			o["ty"] = ty(e->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<CXXConstructExpr>(e)) {
			o["k"] = "ctor";
			o["fn"] = fn(x->getConstructor());
			o["cls"] = x->getConstructor()->getParent()->getQualifiedNameAsString();
			o["args"] = args(x->arguments());
			o["ty"] = ty(e->getType());
			if (x->isListInitialization()) o["list"] = true;
			if (x->isStdInitListInitialization()) o["il"] = true;
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
			o["k"] = "opaque";
			o["sc"] = "CXXInheritedCtorInitExpr";
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<LambdaExpr>(e)) {
			return lambda(x);
		}
		if (auto x = dyn_cast<BinaryOperator>(e)) {
			o["k"] = "bin";
			o["op"] = x->getOpcodeStr().str();
			o["l"] = expr(x->getLHS());
			o["r"] = expr(x->getRHS());
			o["ty"] = ty(e->getType());
			o["lty"] = ty(x->getLHS()->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<UnaryOperator>(e)) {
			o["k"] = "un";
			o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
			o["post"] = x->isPostfix();
			o["e"] = expr(x->getSubExpr());
			o["ty"] = ty(e->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<ConditionalOperator>(e)) {
			o["k"] = "cond";
			o["c"] = expr(x->getCond());
			o["t"] = expr(x->getTrueExpr());
			o["f"] = expr(x->getFalseExpr());
			o["ty"] = ty(e->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<ArraySubscriptExpr>(e)) {
			o["k"] = "index";
			o["base"] = expr(x->getBase());
			o["i"] = expr(x->getIdx());
			o["ty"] = ty(e->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<InitListExpr>(e)) {
			auto s = x->isSemanticForm() ? x : x->getSemanticForm();
			if (!s) s = x;
			o["k"] = "initlist";
			o["ty"] = ty(s->getType());
			json::Array a;
			for (auto i : s->inits()) a.push_back(expr(i));
			o["items"] = std::move(a);
			if (auto rt = s->getType()->getAs<RecordType>()) {
				o["cls"] = rt->getDecl()->getQualifiedNameAsString();
				json::Array fs;
				for (auto f : rt->getDecl()->fields()) fs.push_back(f->getNameAsString());
				o["fields"] = std::move(fs);
			}
			return fin(std::move(o));
		}
		if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
			o["k"] = "zero";
			o["ty"] = ty(e->getType());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<CXXNewExpr>(e)) {
			o["k"] = "new";
			o["ty"] = ty(x->getAllocatedType());
			o["init"] = expr(x->getInitializer());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<CXXDeleteExpr>(e)) {
			o["k"] = "delete";
			o["e"] = expr(x->getArgument());
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<CXXThrowExpr>(e)) {
			o["k"] = "throw";
			if (x->getSubExpr()) {
				o["e"] = expr(x->getSubExpr());
				o["ty"] = ty(x->getSubExpr()->getType());
			}
			return fin(std::move(o));
		}
		if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
			o["k"] = "opaque";
			o["sc"] = "sizeof";
			Expr::EvalResult r;
			if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) {
				o["k"] = "int";
				llvm::SmallString<32> s;
				r.Val.getInt().toString(s, 10);
				o["v"] = std::string(s.str());
				o["ty"] = ty(e->getType());
			}
			return fin(std::move(o));
		}
		o["k"] = "opaque";
		o["sc"] = e->getStmtClassName();
		o["ty"] = ty(e->getType());
		json::Array ch;
		for (auto c : e->children()) {
			if (auto ex = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ex));
		}
		o["ch"] = std::move(ch);
		return fin(std::move(o));
	}

	template <typename R> json::Value args(R r)
	{
		json::Array a;
		for (auto x : r) a.push_back(expr(x));
		return a;
	}

	json::Value params(const FunctionDecl *f)
	{
		json::Array a;
		for (auto p : f->parameters()) {
			json::Object o;
			o["id"] = localId(p);
			o["n"] = p->getNameAsString();
			o["ty"] = ty(p->getType());
			o["pm"] = std::string(1, passMode(p->getType()));
			a.push_back(std::move(o));
		}
		return a;
	}

	json::Value lambda(const LambdaExpr *x)
	{
		json::Object o;
		o["k"] = "lambda";
		o["L"] = lineOf(x->getBeginLoc());
		o["file"] = shortFile(x->getBeginLoc());
		o["id"] = shortFile(x->getBeginLoc()) + ":" + std::to_string(SM.getFileOffset(SM.getExpansionLoc(x->getBeginLoc())));
		const CXXMethodDecl *op = x->getCallOperator();
		if (auto ft = op->getDescribedFunctionTemplate()) {
			for (auto s : ft->specializations()) {
				if (s->hasBody()) {
					op = cast<CXXMethodDecl>(s);
					break;
				}
			}
		}
		o["params"] = params(op);
		o["rt"] = ty(op->getReturnType());
		o["mut"] = x->isMutable();
		json::Array caps;
		for (auto it = x->capture_begin(); it != x->capture_end(); ++it) {
			json::Object c;
			if (it->capturesThis()) {
				c["this"] = true;
			} else if (it->capturesVariable()) {
				auto v = it->getCapturedVar();
				c["id"] = localId(v);
				c["n"] = v->getNameAsString();
				c["byref"] = it->getCaptureKind() == LCK_ByRef;
				if (auto vd = dyn_cast<VarDecl>(v)) {
					if (vd->isInitCapture()) c["init"] = expr(vd->getInit());
				}
			}
			caps.push_back(std::move(c));
		}
		o["caps"] = std::move(caps);
		o["body"] = stmt(op->getBody());
		return o;
	}

	json::Value varDecl(const VarDecl *v)
	{
		json::Object o;
		o["id"] = localId(v);
		o["n"] = v->getNameAsString();
		o["ty"] = ty(v->getType());
		o["L"] = lineOf(v->getLocation());
		if (v->getType()->isReferenceType()) o["isref"] = true;
		if (v->isStaticLocal()) o["sl"] = true;
		if (v->hasInit()) o["init"] = expr(v->getInit());
		if (auto dd = dyn_cast<DecompositionDecl>(v)) {
			json::Array b;
			for (auto x : dd->bindings()) {
				json::Object bo;
				bo["id"] = localId(x);
				bo["n"] = x->getNameAsString();
				if (x->getBinding()) bo["e"] = expr(x->getBinding());
				if (auto hv = x->getHoldingVar()) {
					bo["hold"] = expr(hv->getInit());
				}
				b.push_back(std::move(bo));
			}
			o["bindings"] = std::move(b);
		}
		return o;
	}

	json::Value stmt(const Stmt *s)
	{
		if (!s) return nullptr;
		json::Object o;
		o["L"] = lineOf(s->getBeginLoc());
		if (auto x = dyn_cast<CompoundStmt>(s)) {
			o["k"] = "block";
			json::Array a;
			for (auto c : x->body()) a.push_back(stmt(c));
			o["b"] = std::move(a);
			return o;
		}
		if (auto x = dyn_cast<DeclStmt>(s)) {
			o["k"] = "decl";
			json::Array a;
			for (auto d : x->decls()) {
				if (auto v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
			}
			o["vars"] = std::move(a);
			return o;
		}
		if (auto x = dyn_cast<IfStmt>(s)) {
			o["k"] = "if";
			if (x->getInit()) o["init"] = stmt(x->getInit());
			if (auto v = x->getConditionVariable()) o["cv"] = varDecl(v);
			if (x->isConstexpr()) {
				Expr::EvalResult r;
				if (!x->getCond()->isValueDependent() && x->getCond()->EvaluateAsInt(r, C)) {
					o["constexpr"] = r.Val.getInt().getBoolValue();
				}
			}
			o["c"] = expr(x->getCond());
			o["t"] = stmt(x->getThen());
			if (x->getElse()) o["f"] = stmt(x->getElse());
			return o;
		}
		if (auto x = dyn_cast<WhileStmt>(s)) {
			o["k"] = "while";
			if (auto v = x->getConditionVariable()) o["cv"] = varDecl(v);
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
			return o;
		}
		if (auto x = dyn_cast<DoStmt>(s)) {
			o["k"] = "do";
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
			return o;
		}
		if (auto x = dyn_cast<ForStmt>(s)) {
			o["k"] = "for";
			if (x->getInit()) o["init"] = stmt(x->getInit());
			if (auto v = x->getConditionVariable()) o["cv"] = varDecl(v);
			if (x->getCond()) o["c"] = expr(x->getCond());
			if (x->getInc()) o["inc"] = expr(x->getInc());
			o["b"] = stmt(x->getBody());
			return o;
		}
		if (auto x = dyn_cast<CXXForRangeStmt>(s)) {
			o["k"] = "rangefor";
			if (x->getInit()) o["init"] = stmt(x->getInit());
			o["var"] = varDecl(x->getLoopVariable());
			o["range"] = expr(x->getRangeInit());
			o["rty"] = ty(x->getRangeInit()->getType());
			o["b"] = stmt(x->getBody());
			return o;
		}
		if (auto x = dyn_cast<ReturnStmt>(s)) {
			o["k"] = "return";
			if (x->getRetValue()) o["e"] = expr(x->getRetValue());
			return o;
		}
		if (isa<BreakStmt>(s)) {
			o["k"] = "break";
			return o;
		}
		if (isa<ContinueStmt>(s)) {
			o["k"] = "continue";
			return o;
		}
		if (isa<NullStmt>(s)) {
			o["k"] = "null";
			return o;
		}
		if (auto x = dyn_cast<CXXTryStmt>(s)) {
			o["k"] = "try";
			o["b"] = stmt(x->getTryBlock());
			json::Array h;
			for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
				auto c = x->getHandler(i);
				json::Object co;
				if (c->getExceptionDecl()) co["var"] = varDecl(c->getExceptionDecl());
				if (!c->getCaughtType().isNull()) {
					QualType t = c->getCaughtType().getNonReferenceType();
					co["ty"] = ty(t.getUnqualifiedType());
				}
				co["b"] = stmt(c->getHandlerBlock());
				h.push_back(std::move(co));
			}
			o["h"] = std::move(h);
			return o;
		}
		if (auto x = dyn_cast<SwitchStmt>(s)) {
			o["k"] = "switch";
			if (x->getInit()) o["init"] = stmt(x->getInit());
			o["c"] = expr(x->getCond());
			o["b"] = stmt(x->getBody());
			return o;
		}
		if (auto x = dyn_cast<CaseStmt>(s)) {
			o["k"] = "case";
			o["v"] = expr(x->getLHS());
			o["b"] = stmt(x->getSubStmt());
			return o;
		}
		if (auto x = dyn_cast<DefaultStmt>(s)) {
			o["k"] = "default";
			o["b"] = stmt(x->getSubStmt());
			return o;
		}
		if (auto x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
		if (auto x = dyn_cast<LabelStmt>(s)) {
			o["k"] = "opaque";
			o["sc"] = "label";
			return o;
		}
		if (auto x = dyn_cast<Expr>(s)) {
			o["k"] = "expr";
			o["e"] = expr(x);
			return o;
		}
		o["k"] = "opaque";
		o["sc"] = s->getStmtClassName();
		return o;
	}
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
	Emitter E;
	json::Array fns, recs, vars;
	std::set<std::string> seen;

	Visitor(ASTContext &c) : E(c)
	{
	}

	bool shouldVisitTemplateInstantiations() const
	{
		return true;
	}
	bool shouldVisitImplicitCode() const
	{
		return false;
	}

	bool VisitFunctionDecl(FunctionDecl *f)
	{
		if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return true;
		if (!E.inRoot(f->getLocation())) return true;
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			if (m->getParent()->isLambda()) return true;
		}
		std::string usr = usrOf(f);
		if (!seen.insert("f" + usr).second) return true;
		json::Object o;
		o["fn"] = E.fn(f);
		o["file"] = E.shortFile(f->getLocation());
		o["L"] = E.lineOf(f->getLocation());
		o["endL"] = E.lineOf(f->getEndLoc());
		o["params"] = E.params(f);
		if (auto m = dyn_cast<CXXMethodDecl>(f)) {
			json::Array ov;
			for (auto b : m->overridden_methods()) ov.push_back(usrOf(b));
			o["ov"] = std::move(ov);
			o["acc"] = (int64_t) m->getAccess();
			if (auto ts = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) {
				o["ctype"] = E.ty(E.C.getRecordType(ts));
			}
		}
		if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
			json::Array in;
			for (auto i : c->inits()) {
				json::Object io;
				if (i->isMemberInitializer()) {
					io["f"] = i->getMember()->getNameAsString();
					io["ty"] = E.ty(i->getMember()->getType());
				} else if (i->isBaseInitializer()) {
					io["base"] = E.ty(QualType(i->getBaseClass(), 0));
				} else if (i->isDelegatingInitializer()) {
					io["deleg"] = true;
				}
				io["written"] = i->isWritten();
				io["e"] = E.expr(i->getInit());
				in.push_back(std::move(io));
			}
			o["inits"] = std::move(in);
		}
		o["body"] = E.stmt(f->getBody());
		fns.push_back(std::move(o));
		return true;
	}

	bool VisitCXXRecordDecl(CXXRecordDecl *r)
	{
		if (!r->isThisDeclarationADefinition() || r->isLambda() || r->isDependentContext()) return true;
		if (!E.inRoot(r->getLocation())) return true;
		std::string usr = usrOf(r);
		if (!seen.insert("r" + usr).second) return true;
		json::Object o;
		o["q"] = r->getQualifiedNameAsString();
		o["ty"] = E.ty(E.C.getRecordType(r));
		o["usr"] = usr;
		o["file"] = E.shortFile(r->getLocation());
		o["L"] = E.lineOf(r->getLocation());
		json::Array bs;
		for (auto &b : r->bases()) bs.push_back(E.ty(b.getType()));
		o["bases"] = std::move(bs);
		json::Array fs;
		for (auto f : r->fields()) {
			json::Object fo;
			fo["n"] = f->getNameAsString();
			fo["ty"] = E.ty(f->getType());
			fo["L"] = E.lineOf(f->getLocation());
			fo["acc"] = (int64_t) f->getAccess();
			if (f->hasInClassInitializer()) fo["init"] = E.expr(f->getInClassInitializer());
			fs.push_back(std::move(fo));
		}
		o["fields"] = std::move(fs);
		json::Array ms;
		for (auto m : r->methods()) {
			json::Object mo;
			mo["fn"] = E.fn(m);
			mo["implicit"] = m->isImplicit();
			mo["pure"] = m->isPureVirtual();
			mo["deleted"] = m->isDeleted();
			mo["defaulted"] = m->isDefaulted();
			mo["acc"] = (int64_t) m->getAccess();
			json::Array ov;
			for (auto b : m->overridden_methods()) ov.push_back(usrOf(b));
			mo["ov"] = std::move(ov);
			ms.push_back(std::move(mo));
		}
		o["methods"] = std::move(ms);
		recs.push_back(std::move(o));
		return true;
	}

	bool VisitVarDecl(VarDecl *v)
	{
		if (!v->hasGlobalStorage() || v->isStaticLocal()) return true;
		if (v->getDeclContext()->isDependentContext()) return true;
		if (!E.inRoot(v->getLocation())) return true;
		if (!v->hasInit() || !v->isThisDeclarationADefinition()) {
			if (!v->hasInit()) return true;
		}
		std::string q = v->getQualifiedNameAsString();
		if (!seen.insert("v" + q).second) return true;
		json::Object o;
		o["q"] = q;
		o["ty"] = E.ty(v->getType());
		o["file"] = E.shortFile(v->getLocation());
		o["L"] = E.lineOf(v->getLocation());
		o["const"] = v->getType().isConstQualified();
		o["init"] = E.expr(v->getInit());
		vars.push_back(std::move(o));
		return true;
	}
};

static std::string OutFile;

class Consumer : public ASTConsumer
{
public:
	void HandleTranslationUnit(ASTContext &c) override
	{
		Visitor v(c);
		v.TraverseDecl(c.getTranslationUnitDecl());
		json::Object o;
		o["fns"] = std::move(v.fns);
		o["recs"] = std::move(v.recs);
		o["vars"] = std::move(v.vars);
		json::Array errs;
		o["errors"] = (int64_t) c.getDiagnostics().getClient()->getNumErrors();
		std::error_code ec;
		llvm::raw_fd_ostream os(OutFile, ec);
		os << json::Value(std::move(o));
	}
};

class Action : public ASTFrontendAction
{
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
	{
		return std::make_unique<Consumer>();
	}
};

class Factory : public tooling::FrontendActionFactory
{
public:
	std::unique_ptr<FrontendAction> create() override
	{
		return std::make_unique<Action>();
	}
};

int main(int argc, const char **argv)
{
	std::vector<std::string> src, flags;
	bool after = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (after) {
			flags.push_back(a);
		} else if (a == "--") {
			after = true;
		} else if (a == "--root") {
			Root = argv[++i];
		} else if (a == "--out") {
			OutFile = argv[++i];
		} else {
			src.push_back(a);
		}
	}
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, src);
	Factory f;
	return tool.run(&f);
}
