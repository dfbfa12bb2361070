// Prepares compiled bitcode for checking: replaces environment functions by stubs, links the
// library model, keeps only what the entries reach and runs a light optimisation pipeline.
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static LLVMContext ctx;
static void die(const std::string& m) { errs() << "prep: " << m << "\n"; exit(3); }
static std::unique_ptr<Module> load(const std::string& f) { SMDiagnostic e; auto m = parseIRFile(f, e, ctx); if (!m) { e.print("prep", errs()); exit(3); } return m; }
static void dropBody(Function& F) {
    F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); F.setPersonalityFn(nullptr);
}
static bool glob(const char* p, const char* s) { // '*' matches any text
    if (!*p) return !*s;
    if (*p == '*' && p[1] == '*') return glob(p + 1, s);
    if (*p == '*') { for (;; s++) { if (glob(p + 1, s)) return true; if (!*s) return false; } }
    return *p == *s && glob(p + 1, s + 1);
}
static bool hasAny(const std::string& d, std::initializer_list<const char*> l) { for (auto p : l) if (d.find(p) != std::string::npos) return true; return false; }

// functions whose only effect is text output; their bodies are dropped so that the executor's stream model applies
static bool isOutput(const std::string& name, const std::string& d) {
    if (d.compare(0, 9, "eoLogger:") == 0) return true;
    if (d.find("operator<<(eoLogger&") != std::string::npos) return true;
    size_t par = d.find('(');
    std::string head = d.substr(0, par);
    if (head.find("operator<<") != std::string::npos && (d.find("std::ostream&") != std::string::npos || d.find("basic_ostream") != std::string::npos)) return true;
    if (hasAny(head, {"std::basic_ostream<", "std::ostream::", "std::__ostream_insert", "std::endl<", "std::flush<", "std::basic_ios<", "std::basic_ostringstream<", "std::basic_istringstream<", "std::basic_stringstream<", "std::basic_stringbuf<", "std::__cxx11::basic_ostringstream<", "std::__cxx11::basic_stringstream<", "std::__cxx11::basic_stringbuf<", "std::__cxx11::basic_istringstream<", "std::basic_ofstream<", "std::basic_ifstream<", "std::basic_fstream<", "std::basic_filebuf<", "std::basic_istream<"})) {
        // only members of these classes (not templates mentioning them as arguments)
        size_t k = head.find("std::"); (void)k;
        for (const char* p : {"std::basic_ostream<", "std::basic_istream<", "std::basic_ios<", "std::__cxx11::basic_ostringstream<", "std::__cxx11::basic_stringstream<", "std::__cxx11::basic_stringbuf<", "std::__cxx11::basic_istringstream<", "std::basic_ofstream<", "std::basic_ifstream<", "std::basic_fstream<", "std::basic_filebuf<", "std::ostream::"})
            if (head.compare(0, strlen(p), p) == 0) return true;
        if (head.find(" std::endl<") != std::string::npos || head.find("std::__ostream_insert") != std::string::npos || head.find(" std::flush<") != std::string::npos) return true;
    }
    return false;
}

int main(int argc, char** argv) {
    std::string out; bool sym = true; bool list = false; std::vector<std::string> ins; std::vector<std::pair<std::string, std::string>> stubs; std::set<std::string> entries; int opt = 1; std::vector<std::string> keep;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-o") out = argv[++i];
        else if (a == "-native") sym = false;
        else if (a == "-stub") { std::string s = argv[++i]; size_t k = s.rfind('='); stubs.push_back({s.substr(0, k), s.substr(k + 1)}); }
        else if (a == "-entry") entries.insert(argv[++i]);
        else if (a == "-keep") keep.push_back(argv[++i]);
        else if (a == "-O0") opt = 0;
        else if (a == "-list") list = true;
        else ins.push_back(a);
    }
    auto M = load(ins[0]);
    Linker L(*M);
    for (size_t i = 1; i < ins.size(); i++) if (L.linkInModule(load(ins[i]))) die("cannot link " + ins[i]);
    std::map<std::string, std::vector<Function*>> byDem;
    for (Function& F : *M) { std::string d = demangle(F.getName().str()); byDem[d].push_back(&F); if (list) outs() << d << "\n"; }
    for (auto& st : stubs) {
        bool pattern = st.first.find("**") != std::string::npos;
        std::vector<Function*> t;
        if (pattern) { for (auto& b : byDem) if (glob(st.first.c_str(), b.first.c_str())) t.insert(t.end(), b.second.begin(), b.second.end()); }
        else { auto it = byDem.find(st.first); if (it != byDem.end()) t = it->second; }
        for (Function* F : t) {
            Function* S = M->getFunction(st.second);
            if (!S) S = Function::Create(F->getFunctionType(), GlobalValue::ExternalLinkage, st.second, M.get());
            if (S == F) continue;
            if (!F->isDeclaration()) dropBody(*F);
            F->replaceAllUsesWith(S);
        }
    }
    if (sym) {
        for (Function& F : *M) {
            F.removeFnAttr(Attribute::SanitizeAddress);
            if (F.isDeclaration()) continue;
            std::string n = F.getName().str(); std::string d = demangle(n);
            bool kp = false; for (auto& k : keep) if (d.find(k) != std::string::npos) kp = true;
            if (!kp && isOutput(n, d)) dropBody(F);
        }
        // keep only the entries
        internalizeModule(*M, [&](const GlobalValue& G) { return entries.count(G.getName().str()) || G.getName().starts_with("llvm."); });
        for (Function& F : *M) { F.removeFnAttr(Attribute::NoInline); if (F.hasFnAttribute(Attribute::OptimizeNone)) F.removeFnAttr(Attribute::OptimizeNone); }
        PassBuilder PB([] { return nullptr; }(), [] { PipelineTuningOptions p; p.LoopVectorization = false; p.SLPVectorization = false; p.LoopUnrolling = false; p.LoopInterleaving = false; return p; }());
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        { ModulePassManager m; m.addPass(GlobalDCEPass()); m.run(*M, MAM); }
        if (opt) { ModulePassManager m = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); m.run(*M, MAM); }
        { ModulePassManager m; m.addPass(GlobalDCEPass()); m.run(*M, MAM); }
    }
    std::error_code ec; raw_fd_ostream os(out, ec); if (ec) die(ec.message());
    WriteBitcodeToFile(*M, os);
    return 0;
}
