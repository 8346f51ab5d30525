// clang plugin: dumps (as JSON) every declaration whose spelling lies below a given directory.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace {
class Consumer : public ASTConsumer {
	std::vector<std::string> dirs;
public:
	explicit Consumer( std::vector<std::string> const& d):dirs(d){}
	bool inDirs( ASTContext& C, Decl* D) {
		SourceManager& SM = C.getSourceManager();
		SourceLocation L = SM.getExpansionLoc( D->getLocation());
		if (L.isInvalid()) return false;
		StringRef fn = SM.getFilename( L);
		for (auto const& d : dirs) if (fn.starts_with( d)) return true;
		return false;
	}
	void walk( ASTContext& C, DeclContext* DC, std::string const& path) {
		for (Decl* D : DC->decls()) {
			if (auto* NS = dyn_cast<NamespaceDecl>( D)) { walk( C, NS, path + (NS->isAnonymousNamespace() ? std::string("(anon)") : NS->getName().str()) + "::"); continue; }
			if (auto* LS = dyn_cast<LinkageSpecDecl>( D)) { walk( C, LS, path); continue; }
			if (!inDirs( C, D)) continue;
			std::string scope = path;
			if (auto* ND = dyn_cast<NamedDecl>( D)) { scope = ND->getQualifiedNameAsString(); }
			llvm::outs() << "{\"vfscope\":\"" << path << "\",\"vfqual\":\"" << scope << "\",\"decl\":";
			D->dump( llvm::outs(), false, ADOF_JSON);
			llvm::outs() << "}\n";
		}
	}
	void HandleTranslationUnit( ASTContext& C) override {
		if (C.getDiagnostics().hasErrorOccurred()) return;
		walk( C, C.getTranslationUnitDecl(), "");
		llvm::outs() << "{\"vfend\":1}\n";
	}
};
class Action : public PluginASTAction {
	std::vector<std::string> dirs;
protected:
	std::unique_ptr<ASTConsumer> CreateASTConsumer( CompilerInstance&, StringRef) override { return std::make_unique<Consumer>( dirs); }
	bool ParseArgs( const CompilerInstance&, const std::vector<std::string>& args) override { dirs = args; return true; }
};
}
static FrontendPluginRegistry::Add<Action> X("vfdump", "dump declarations of a directory as JSON");
