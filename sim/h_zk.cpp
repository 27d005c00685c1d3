// Simulation of the zero-knowledge protocol and its polynomial commitments.
#include "zkprover.h"
#include <memory>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include <signal.h>

#define main libra_main
namespace prog_plain {
#include PROGRAM
}
#undef main

// declared by the repository, defined nowhere and called by nobody; a virtual method needs a body
__attribute__((weak)) void zk_prover::sumcheck_maskpoly_init() {}

namespace sim {
struct ZActors {
	char *mem, *vmem;
	ZProver *p;
	zk_verifier *v;
	ZActors() : p(NULL), v(NULL) { mem = (char *)aligned_alloc(64, (sizeof(ZProver) + 127) / 64 * 64); vmem = (char *)aligned_alloc(64, (sizeof(zk_verifier) + 127) / 64 * 64); }
	void fresh() { // the program keeps both as globals: zeroed memory
		memset(mem, 0, sizeof(ZProver)); memset(vmem, 0, sizeof(zk_verifier));
		p = new (mem) ZProver(); v = new (vmem) zk_verifier();
	}
};
static ZActors &zactors() { static ZActors *a = new ZActors(); return *a; }
static void zclean() { g_write.data.clear(); g_write.errors.clear(); unlink("proof.bin"); unlink("result.txt"); }
static std::string zfile(const char *n, bool &there) {
	auto i = g_write.data.find(n);
	if (i != g_write.data.end()) { there = true; return i->second; }
	std::ifstream f(n, std::ios::binary);
	there = f.good();
	std::stringstream s; s << f.rdbuf();
	return s.str();
}
static zk_verifier *&zother() { static zk_verifier *v = NULL; return v; }
// 1 accepted, 0 rejected
// file: the prover proves c, but the verifier is given this circuit (with the meta file of c)
static int zrun(ZSession &s, Run &r, const ZCirc &c, Entropy &e, const ZCirc *file = NULL, const std::string *files = NULL) {
	s.run = &r; s.circ = &c;
	s.M = ZModel(c); s.F = s.plan.lie ? ZModel(c, s.plan.flips) : s.M;
	write_file(scratch() + "/circuit.txt", files ? files[0] : c.text());
	write_file(scratch() + "/meta.txt", files ? files[1] : c.meta());
	zclean();
	g_write.active = true;
	set_entropy(&e);
	ZActors &a = zactors();
	a.fresh();
	a.p->S = &s;
	a.p->total_time = 0;
	a.v->get_prover(a.p);
	if (file) {
		zk_verifier *&other = zother();
		other = new zk_verifier();
		other->get_prover(a.p);
		other->read_circuit((scratch() + "/circuit.txt").c_str(), (scratch() + "/meta.txt").c_str());
		write_file(scratch() + "/circuit.txt", file->text());
	}
	a.v->read_circuit((scratch() + "/circuit.txt").c_str(), (scratch() + "/meta.txt").c_str());
	a.p->get_circuit(file ? zother()->C : a.v->C);
	int v = a.v->verify("result.txt") ? 1 : 0;
	set_entropy(NULL);
	g_write.active = false;
	s.h(1000 + v);
	r.note(s.hist);
	r.st.hit("messages", s.rec.msgs.size());
	return v;
}
static void zworld(Run &r) {
	static const int fills[] = {0, 0, 0xff, 0xa5, 0x01};
	g_clock.mode = r.ch.pick(5, "clock mode");
	g_clock.rng = Rng(r.ch.raw("clock seed"));
	if (g_clock.mode) { static const char *n[] = {"", "clock.slow", "clock.jump_forward", "clock.backwards", "clock.stuck"}; r.fault(n[g_clock.mode]); }
	g_alloc_fill = fills[r.ch.pick(5, "fresh memory")];
	if (g_alloc_fill > 0) r.fault("memory.dirty");
}
static bool zouts(Run &r, const ZSession &s) {
	if (s.sent_out == s.M.out()) return true;
	size_t g = 0; while (g < s.sent_out.size() && s.sent_out[g] == s.M.out()[g]) ++g;
	r.violate("output", "output %zu is %s, the circuit computes %s", g, s.sent_out[g].hex().c_str(), s.M.out()[g].hex().c_str());
	return false;
}

// --- C12: honest proofs, and what is left on disk ---
struct ZProgArgs { std::string dir; };
static void zprog_child(void *p) {
	ZProgArgs *a = (ZProgArgs *)p;
	if (chdir(a->dir.c_str())) _exit(77);
	static char n0[] = "libra_zk", n1[] = "circuit.txt", n2[] = "meta.txt", n3[] = "result.txt";
	char *v[] = {n0, n1, n2, n3, NULL};
	int rc = prog_plain::libra_main(4, v);
	fflush(stdout);
	_exit(rc);
}
struct ZWrite { int verdict, complete, ran; char what[200]; };
struct ZChild { Run *r; const ZCirc *c; Entropy e; ZWrite *w; std::string want_proof; int fault_file, fault_kind; long at; };
static void zwrite_child(void *p) {
	ZChild *a = (ZChild *)p;
	g_write.name = a->fault_file ? "result.txt" : "proof.bin";
	g_write.fail_open = a->fault_kind == 0;
	g_write.fail_at = a->fault_kind == 0 ? -1 : a->at;
	g_write.err = a->fault_kind == 1 ? ENOSPC : EIO;
	ZSession s;
	a->w->ran = 1;
	int v = zrun(s, *a->r, *a->c, a->e);
	a->w->verdict = v;
	a->w->complete = !g_write.errors.count(g_write.name);
	a->w->ran = 2;
	_exit(0);
}
#include <sys/mman.h>
static bool complete_result(const std::string &t) { // seven numbers on a line
	std::istringstream i(t);
	double x; int n = 0;
	while (i >> x) ++n;
	return n == 7 && t.size() && t[t.size() - 1] == '\n';
}
// elements no check depends on, or that mean nothing by themselves
static bool exempt(const std::string &n) { return n == "1:v_v"; }
// The first element of the proof that proof.bin lacks.
static std::string not_in_proof(const ZSession &s, const std::string &file) {
	std::set<std::string> in;
	for (size_t i = 0; i + 32 <= file.size(); i += 8) in.insert(file.substr(i, 32));
	for (size_t g = 0; g < s.sent_out.size(); ++g) if (!in.count(std::string((const char *)s.sent_out[g].l, 32))) return "output " + std::to_string(g);
	for (auto &x : s.rec.el) if (!exempt(x.first) && !in.count(std::string((const char *)x.second.l, 32))) return x.first;
	for (auto &x : s.rec.pts) if (!in.count(x.second)) return x.first;
	return "";
}
} // namespace sim
#include "zfiles.h"
namespace sim {
static void run_zk_honest(Run &r) {
	ZGen o;
	int kind = r.ch.pick(14, "kind");
	if (kind == 11) { o.max_depth = 2; o.deep = 0; }
	if (kind >= 12) { o.max_depth = 3; o.max_bits = 2; }
	ZCirc c = zgen(r.ch, o);
	int em = r.ch.pick(3, "entropy") ? ENT_UNIFORM : (int)r.ch.pick(ENT_MODES, "entropy mode");
	Entropy e; e.configure(em, r.ch.raw("entropy seed"));
	zworld(r);
	r.say("%s", c.brief().c_str());
	r.state(mix64(c.shape() ^ mix64(em * 32 + kind)));
	if (kind == 10) { // the program itself
		zclean();
		write_file(scratch() + "/circuit.txt", c.text(r.ch.pick(4, "layout")));
		write_file(scratch() + "/meta.txt", c.meta());
		set_entropy(&e);
		ZProgArgs a = {scratch()};
		ChildEnd ce = in_child(zprog_child, &a, 60);
		set_entropy(NULL);
		r.probe("whole program");
		r.note(std::hash<std::string>()(ce.out) ^ ce.code);
		if (ce.hung || ce.signaled) { r.violate(ce.asan ? "asan" : "program-dies", "honest run of the program %s %d", ce.hung ? "hangs" : "ends by signal", ce.sig); return; }
		if (ce.out.find("Pass") == std::string::npos || ce.out.find("Fail") != std::string::npos) { r.violate("program-not-pass", "honest run of the program does not print Pass (exit %d)", ce.code); return; }
		bool t1, t2;
		std::string pr = zfile("proof.bin", t1), re = zfile("result.txt", t2);
		if (!t1 || pr.empty() || !t2 || !complete_result(re)) r.violate("files-incomplete", "after Pass: proof.bin %zu bytes, result file '%s'", pr.size(), re.c_str());
		zclean();
		return;
	}
	if (kind >= 12) { run_zk_files(r, c, e); return; }
	if (kind == 11) { // a disk that fails
		ZSession s0;
		Entropy e0 = e;
		int v0 = zrun(s0, r, c, e0);
		bool t1, t2;
		std::string pr = zfile("proof.bin", t1), re = zfile("result.txt", t2);
		if (v0 != 1) { r.violate("honest-rejected", "honest proof rejected"); return; }
		ZWrite *w = (ZWrite *)mmap(NULL, sizeof *w, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		ZChild a; a.r = &r; a.c = &c; a.e = e; a.w = w;
		a.fault_file = r.ch.pick(2, "which file"); a.fault_kind = r.ch.pick(3, "write fault");
		size_t len = a.fault_file ? re.size() : pr.size();
		a.at = r.ch.pick(4, "where") ? r.ch.pick(len ? len : 1, "byte") : (long)(len ? len - 1 : 0);
		static const char *fk[] = {"write.open-fails", "write.disk-full", "write.io-error"};
		r.fault(fk[a.fault_kind]);
		ChildEnd ce = in_child(zwrite_child, &a, 60);
		r.say("%s on %s at byte %ld of %zu: ran %d verdict %d complete %d", fk[a.fault_kind], a.fault_file ? "result file" : "proof.bin", a.at, len, w->ran, w->verdict, w->complete);
		r.note((uint64_t)w->ran * 8 + w->verdict * 2 + w->complete);
		if (ce.hung || (ce.signaled && ce.sig != SIGABRT)) r.violate(ce.asan ? "asan" : "write-fault-crash", "%s on %s: the run %s %d", fk[a.fault_kind], a.fault_file ? "the result file" : "proof.bin", ce.hung ? "hangs" : "dies of signal", ce.sig);
		else if (w->ran == 2 && w->verdict == 1 && !w->complete) r.violate("pass-without-proof", "%s on %s at byte %ld of %zu: accepted as if it had been written", fk[a.fault_kind], a.fault_file ? "the result file" : "proof.bin", a.at, len);
		munmap(w, sizeof *w);
		return;
	}
	ZSession s;
	int v = zrun(s, r, c, e);
	if (!zouts(r, s)) return;
	if (v != 1) { r.violate("honest-rejected", "honest proof rejected"); return; }
	bool t1, t2;
	std::string pr = zfile("proof.bin", t1), re = zfile("result.txt", t2);
	r.note(std::hash<std::string>()(pr));
	if (!t1 || pr.empty() || !t2 || !complete_result(re)) r.violate("files-incomplete", "after acceptance: proof.bin %zu bytes, result file '%s'", pr.size(), re.c_str());
	std::string lacks = not_in_proof(s, pr);
	if (!lacks.empty()) r.violate("proof-incomplete", "after acceptance proof.bin (%zu bytes) lacks %s", pr.size(), lacks.c_str());
	r.st.hit("verdict.accept");
}

// --- C13: cheating provers ---
static ZPlan zplan(Run &r, const ZCirc &c, const ZModel &m, bool unary) {
	ZPlan p;
	p.lie = true;
	p.qseed = r.ch.raw("lie seed");
	p.stage = unary && r.ch.pick(2, "cancel") ? Z_CANCEL : (ZStage)(1 + r.ch.pick(Z_STAGES - 1, "target"));
	int nl = m.nl;
	bool fin = p.stage == Z_FIN || p.stage == Z_ANS || p.stage == Z_ZU || p.stage == Z_INDIG;
	p.layer = fin ? 0 : 1 + (int)r.ch.pick(nl - 1, "target layer");
	if (p.stage == Z_VULATE) p.layer = 1;
	if ((p.stage == Z_R1 || p.stage == Z_R2 || p.stage == Z_IUV || p.stage == Z_PZU || p.stage == Z_PZV || p.stage == Z_RDIG || p.stage == Z_RLATE) && nl > 2) p.layer = 1 + (int)r.ch.pick(nl - 2, "target layer");
	if (p.stage == Z_CANCEL) {
		std::vector<int> un;
		for (int l = 2; l < nl; ++l) { bool u = true; for (auto &t : m.T[l]) if (!t.cv.zero() || !t.cuv.zero()) u = false; if (u) un.push_back(l); }
		if (un.empty()) p.stage = Z_SEMI; else { p.layer = un[r.ch.pick(un.size(), "target layer")]; p.kc = r.ch.pick(2, "foreseen challenge"); }
	}
	if (p.stage == Z_OUT) { // two false outputs that cancel at the point of a rehearsal
		if (c.L.back().size() < 2) p.stage = Z_SEMI;
		else {
			p.layer = nl - 1; p.kc = true;
			int a = r.ch.pick(c.L.back().size(), "false output"), b = r.ch.pick(c.L.back().size() - 1, "other false output");
			if (b >= a) ++b;
			p.flips.push_back({nl - 1, a, Fp(1)}); p.flips.push_back({nl - 1, b, Fp(1)});
			return p;
		}
	}
	if (p.stage == Z_R1 || p.stage == Z_R2 || p.stage == Z_MASK || p.stage == Z_ANS) p.wrap = r.ch.chance(1, 4, "oversized");
	if (p.stage == Z_P1 || p.stage == Z_P2) p.round = r.ch.pick(m.bits[p.layer - 1], "target round");
	if (p.stage == Z_P1 || p.stage == Z_P2 || p.stage == Z_C) p.kc = r.ch.pick(2, "foreseen challenge");
	if (p.stage == Z_RDIG || p.stage == Z_MDIG || p.stage == Z_INDIG || p.stage == Z_MSUM) p.kc = true;
	// where the falsehood starts: a false wire above the target, mostly the outputs themselves
	int top = nl - 1, low = p.layer; // a wire of layer l is first tested by the sum-check of layer l
	int L = p.stage == Z_VRES || r.ch.pick(2, "false outputs") == 0 ? top : low + (int)r.ch.pick(top - low + 1, "false layer");
	static const char *dk[] = {"one", "minus one", "big"};
	(void)dk;
	int g = r.ch.pick(c.L[L ? L - 1 : 0].size(), "false wire");
	Fp d = r.ch.pick(2, "shift") ? Rng(r.ch.raw("shift")).fp() : Fp(1 + r.ch.pick(3, "shift"));
	if (r.ch.pick(2, "sign")) d = -d;
	p.flips.push_back({L, g, d});
	if (ZModel(c, p.flips).out() == m.out()) { p.flips.clear(); p.flips.push_back({top, (int)r.ch.pick(c.L.back().size(), "false output"), d}); }
	return p;
}
static std::string zkind(const std::string &n) { // "3:p1:2.a" -> "p1.a", "R1.w[2]" -> "R1.w"
	std::string o;
	for (size_t i = 0; i < n.size(); ++i) { if (n[i] == '[') break; if (isdigit((unsigned char)n[i]) && (i == 0 || n[i - 1] == ':')) { while (i + 1 < n.size() && isdigit((unsigned char)n[i + 1])) ++i; continue; } if (n[i] != ':') o += n[i]; }
	return o;
}
struct FpLess { bool operator()(const Fp &x, const Fp &y) const { for (int i = 3; i >= 0; --i) if (x.l[i] != y.l[i]) return x.l[i] < y.l[i]; return false; } };
// A layer that the meta file calls repeated while one of its copies is another: the prover who proves the repeated one must not pass.
struct ZMeta2 { Run *r; const ZCirc *c, *file; uint64_t es; int *out; };
static void zmeta_child(void *x) {
	ZMeta2 &a = *(ZMeta2 *)x;
	ZSession s; Entropy e; e.configure(ENT_UNIFORM, a.es);
	int v = zrun(s, *a.r, *a.c, e, a.file);
	a.out[0] = 1; a.out[1] = v; a.out[2] = s.sent_out == ZModel(*a.file).out();
	_exit(0);
}
static bool run_zk_meta(Run &r, const ZCirc &c, uint64_t es) {
	std::vector<int> rep;
	for (size_t l = 1; l < c.L.size(); ++l) if (c.M[l].para && c.M[l].lr > 0) rep.push_back(l);
	if (rep.empty()) return true;
	ZCirc f = c;
	int l = rep[r.ch.pick(rep.size(), "repeated layer")];
	int bs = 1 << c.M[l].lb, pb = 1 << c.M[l - 1].lb;
	int g = bs + r.ch.pick(f.L[l].size() - bs, "gate of another copy"), lo = g / bs * pb;
	ZGate &x = f.L[l][g];
	switch (r.ch.pick(4, "difference")) {
		case 0: x = ZGate{x.ty == 0 ? 1 : 0, lo, lo + (int)r.ch.pick(pb, "operand")}; break;
		case 1: if (x.ty != 2 && x.ty != 5 && x.ty != 12 && x.ty != 13) x.u = lo + r.ch.pick(pb, "operand"); break;
		case 2: if (x.ty != 2 && x.ty != 5 && x.ty != 12 && x.ty != 13 && x.ty != 6 && x.ty != 10) x.v = lo + r.ch.pick(pb, "operand"); break;
		default: x = ZGate{x.ty == 10 ? 6 : 10, (int)r.ch.pick(f.L[l - 1].size(), "operand"), 0};
	}
	ZMeta2 a = {&r, &c, &f, es, (int *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)};
	ChildEnd ce = in_child(zmeta_child, &a, 60);
	bool played = a.out[0], acc = a.out[1], same = a.out[2];
	munmap(a.out, 4096);
	r.say("meta file calls layer %d repeated, its gate %d differs: %s", l, g, !played ? "refused" : acc ? "accepted" : "rejected");
	r.note((uint64_t)played * 4 + acc * 2 + same);
	r.fault("meta-file-lies");
	r.st.hit(!played ? "lying-meta.refused" : acc ? "lying-meta.accepted" : "lying-meta.rejected");
	if (ce.asan || (ce.signaled && ce.sig != SIGABRT)) { r.violate(ce.asan ? "asan" : "crash-lying-meta", "layer %d is not repeated as the meta file says: memory error", l); return false; }
	if (played && acc && !same) { r.violate("accepts-false-output:lying-meta", "layer %d is not repeated as the meta file says, and the proof for the repeated layer is accepted", l); return false; }
	return true;
}
static void run_zk_sound(Run &r) {
	ZGen o; o.max_depth = 3; o.max_bits = 2; o.deep = 30;
	o.unary = r.ch.chance(1, 8, "one-sided gates");
	ZCirc c = zgen(r.ch, o);
	zworld(r);
	r.say("%s", c.brief().c_str());
	uint64_t es = r.ch.raw("entropy seed");
	if (r.ch.chance(1, 12, "lying meta file") && !run_zk_meta(r, c, es)) return;
	ZModel truth(c);
	int n = 1 + r.ch.pick(3, "attacks");
	ZRec honest;
	for (int i = 0; i < n; ++i) {
		Entropy e; e.configure(ENT_UNIFORM, es);
		if (r.ch.chance(1, 4, "one altered element")) {
			if (honest.msgs.empty()) {
				ZSession s; Entropy e0 = e;
				int v = zrun(s, r, c, e0);
				if (v != 1) { r.probe("rehearsal_rejected"); return; }
				honest = s.rec;
			}
			ZSession s;
			s.plan.tamper = r.ch.pick(honest.msgs.size() + truth.nl - 1, "element");
			s.plan.tdelta = r.ch.pick(2, "delta") ? Rng(r.ch.raw("delta")).fp() : r.ch.pick(2, "delta") ? Fp(1) : -Fp(1);
			s.plan.drop = r.ch.chance(1, 4, "left out");
			if (!s.plan.drop && r.ch.chance(1, 4, "not reduced")) {
				s.plan.over = 1 + r.ch.pick(3, "not reduced");
				if (r.ch.chance(1, 8, "an output")) { s.plan.tamper = -1; s.plan.over_out = r.ch.pick(truth.out().size(), "output"); }
			}
			int v = zrun(s, r, c, e);
			std::string cls = s.tampered;
			size_t k = cls.find(':'); if (k != std::string::npos) cls = cls.substr(k + 1);
			std::string sh = cls.substr(0, cls.find('['));
			r.say("altered %s: verdict %d", s.tampered.c_str(), v);
			r.state(mix64(c.shape() ^ std::hash<std::string>()(s.tampered)));
			r.st.hit("tamper." + sh.substr(0, sh.find(':')));
			if (v == 1 && !s.tampered.empty() && !exempt(s.tampered)) { r.violate("altered-accepted:" + cls, "proof with altered element %s accepted", s.tampered.c_str()); return; }
			continue;
		}
		ZPlan p = zplan(r, c, truth, o.unary);
		ZRec known;
		if (p.kc) {
			ZSession s;
			s.plan = p; s.plan.kc = false;
			if (p.stage == Z_P1 || p.stage == Z_P2 || p.stage == Z_MSUM || p.stage == Z_CANCEL) s.plan.stage = Z_NONE;
			if (p.stage == Z_OUT) { s.plan.lie = false; s.plan.flips.clear(); }
			if (p.stage == Z_C) s.plan.stage = Z_SEMI;
			Entropy e0 = e;
			bool vb = r.verbose; r.verbose = false;
			zrun(s, r, c, e0);
			r.verbose = vb;
			known = s.rec;
			if (p.stage == Z_OUT) {
				Vec r0; for (int j = 0; j < truth.bits.back(); ++j) r0.push_back(known.chal[std::to_string(p.layer) + ":r0:" + std::to_string(j)]);
				Fp x = ref::chi(p.flips[0].g, r0, r0.size()), y = ref::chi(p.flips[1].g, r0, r0.size());
				if (x.zero() || y.zero()) continue;
				p.flips[1].d = -(x / y);
			}
		}
		ZSession s;
		s.plan = p;
		if (p.kc) s.known = &known;
		int v = zrun(s, r, c, e);
		bool truthful = s.sent_out == truth.out();
		r.say("attack %s layer %d round %d, false wire %d:%d: %s%s verdict %d", p.name().c_str(), p.layer, p.round, p.flips[0].layer, p.flips[0].g, s.reached ? "played" : "not reached", s.gave_up ? " (gave up)" : "", v);
		r.state(mix64(c.shape() ^ std::hash<std::string>()(p.name()) ^ (uint64_t)p.layer * 131 ^ p.round));
		r.st.hit((s.gave_up || !s.reached ? "attack-not-played." : "attack.") + p.name());
		if (s.reached && !s.gave_up) r.fault(p.name().c_str());
		if (v == 1 && !truthful) { r.violate("accepts-false-output:" + p.name(), "attack %s at layer %d round %d: false outputs accepted", p.name().c_str(), p.layer, p.round); return; }
		r.st.hit(v ? "verdict.accept" : "verdict.reject");
	}
}

// --- C19: what the prover sends is masked ---
// The unmasked round polynomial of the layer's sum-check (coefficients 0..2), from the statement.
static Poly zplain(const ZModel &M, int l, const Fp &al, const Fp &be, const Vec &r0, const Vec &r1, const Vec &ru, const Vec &rv, int phase, int j) {
	Vec a = ref::chi_table(r0, al), b = ref::chi_table(r1, be);
	int n = M.bits[l - 1];
	const Vec &V = M.V[l - 1];
	Fp y[3];
	for (int x = 0; x < 3; ++x) {
		Vec pt(phase == 1 ? ru.begin() : rv.begin(), (phase == 1 ? ru.begin() : rv.begin()) + j);
		pt.push_back(Fp(x));
		Vec lo = ref::chi_table(pt), W(1ull << (n - j - 1)); // W: V bound at pt
		for (size_t s = 0; s < W.size(); ++s) for (size_t k = 0; k < lo.size(); ++k) W[s] += lo[k] * V[k | s << (j + 1)];
		Vec xu; Fp vu;
		if (phase == 2) { xu = ref::chi_table(ru); vu = ref::mle(V, ru); }
		size_t mask = lo.size() - 1;
		for (auto &t : M.T[l]) {
			Fp w = a[t.g] + b[t.g];
			if (phase == 1) {
				Fp U = W[t.u >> (j + 1)];
				y[x] += w * lo[t.u & mask] * (t.c0 + t.cu * U + t.cv * V[t.v] + t.cuv * U * V[t.v]);
			} else if (l > 1) {
				Fp X = W[t.v >> (j + 1)];
				y[x] += w * xu[t.u] * lo[t.v & mask] * (t.c0 + t.cu * vu + t.cv * X + t.cuv * vu * X);
			}
		}
	}
	Poly p(3);
	p[0] = y[0];
	p[2] = (y[2] - y[1] - y[1] + y[0]) / Fp(2);
	p[1] = y[1] - y[0] - p[2];
	return p;
}
static bool solvable(std::vector<Vec> A) { // rows: coefficients and right side
	size_t n = A[0].size() - 1, row = 0;
	for (size_t c = 0; c < n && row < A.size(); ++c) {
		size_t k = row; while (k < A.size() && A[k][c].zero()) ++k;
		if (k == A.size()) continue;
		std::swap(A[k], A[row]);
		for (size_t i = row + 1; i < A.size(); ++i) if (!A[i][c].zero()) { Fp f = A[i][c] / A[row][c]; for (size_t j = c; j <= n; ++j) A[i][j] -= f * A[row][j]; }
		++row;
	}
	if (row < n) return false; // tells nothing
	for (size_t i = row; i < A.size(); ++i) if (!A[i][n].zero()) return false;
	return true;
}
static void run_zk_hiding(Run &r) {
	ZGen o; o.max_depth = 3;
	ZCirc c = zgen(r.ch, o), c2 = c;
	zworld(r);
	g_libc_rand = 1; // rand() as it is: a stream anyone can compute, the same in every process
	r.say("%s", c.brief().c_str());
	r.state(c.shape());
	uint64_t s1 = r.ch.raw("entropy seed"), s2 = r.ch.raw("entropy seed");
	if (r.ch.pick(2, "other inputs")) for (auto &g : c2.L[0]) if (g.ty == 3) g.u = zinput(r.ch);
	ZSession a, b;
	Entropy e; e.configure(ENT_UNIFORM, s1);
	bool t1, t2;
	int v1 = zrun(a, r, c, e);
	uint64_t draws1 = e.draws;
	size_t len1 = zfile("proof.bin", t1).size();
	e.configure(ENT_UNIFORM, s2);
	srand(1);
	int v2 = zrun(b, r, c2, e);
	size_t len2 = zfile("proof.bin", t2).size();
	if (v1 != 1 || v2 != 1) { r.probe("honest_rejected"); return; } // C12's business
	if (a.rec.msgs.size() != b.rec.msgs.size() || len1 != len2) { r.violate("size-depends-on-inputs", "proofs of %zu and %zu elements, %zu and %zu bytes for the same circuit", a.rec.msgs.size(), b.rec.msgs.size(), len1, len2); return; }
	if (s1 != s2) for (size_t i = 0; i < a.rec.msgs.size(); ++i)
		if (a.rec.msgs[i] == b.rec.msgs[i]) { r.violate("unmasked:" + zkind(a.rec.msgs[i].first), "%s is the same in two proofs with different randomness", a.rec.msgs[i].first.c_str()); return; }
	// the coefficients the masks are made of
	{
		std::map<Fp, std::string, FpLess> seen;
		for (const ZSession *z : {&a, &b}) for (auto &m : z->rec.masks) {
			std::string n = (z == &b ? "second proof " : "") + m.first;
			if (s1 == s2 && z == &b) break;
			if (!(m.second.l[2] | m.second.l[3] | m.second.l[1] >> 36)) { r.violate("mask-guessable:" + zkind(m.first), "mask coefficient %s is the small number %s", n.c_str(), m.second.hex().c_str()); return; }
			auto k = seen.find(m.second);
			if (k != seen.end()) { r.violate("mask-coefficient-reused:" + zkind(m.first), "%s is %s again", n.c_str(), k->second.c_str()); return; }
			seen[m.second] = n;
			r.st.hit("mask coefficients");
		}
	}
	if (a.rec.masks.size() && r.ch.pick(3, "flip")) { // one random word goes into one of them
		ZSession f;
		Entropy g; g.configure(ENT_UNIFORM, s1);
		g.flip_at = r.ch.pick(draws1 ? draws1 : 1, "flipped draw"); g.flip_mask = 1u << r.ch.pick(32, "flipped bit");
		r.fault("entropy.bit-flip");
		srand(1);
		if (zrun(f, r, c, g) == 1 && f.rec.masks.size() == a.rec.masks.size()) {
			std::string first;
			for (size_t i = 0; i < f.rec.masks.size(); ++i) if (f.rec.masks[i].second != a.rec.masks[i].second) {
				if (first.empty()) first = f.rec.masks[i].first;
				else { r.violate("masks-dependent:" + zkind(f.rec.masks[i].first), "%s and %s come from the same random word %ld", f.rec.masks[i].first.c_str(), first.c_str(), g.flip_at); return; }
			}
			r.st.hit(first.empty() ? "flip.elsewhere" : "flip.mask");
		}
	}
	// against the unmasked protocol at the same challenges
	std::map<std::string, Fp> el(a.rec.el.begin(), a.rec.el.end());
	std::map<Fp, std::string, FpLess> masks;
	auto ch = [&](int l, const char *n, int j) { std::string k = std::to_string(l) + ":" + n; if (j >= 0) k += ":" + std::to_string(j); auto i = a.rec.chal.find(k); return i == a.rec.chal.end() ? Fp() : i->second; };
	// the mask of element n is not another's times a small power of two
	auto fresh_mask = [&](const std::string &n, const Fp &m) {
		if (n.compare(0, 10, "input mask") == 0 && !(m.l[2] | m.l[3] | m.l[1] >> 36)) { r.violate("mask-guessable:" + zkind(n), "%s is the small number %s", n.c_str(), m.hex().c_str()); return false; }
		auto k = masks.find(m);
		if (k != masks.end()) { r.violate("mask-reused:" + zkind(n), "%s and %s carry the same mask, but for a factor anyone can tell", n.c_str(), k->second.c_str()); return false; }
		Fp t = m, h = Fp(1) / Fp(2);
		for (int i = 0; i < 20; ++i, t = t + t) masks[t] = n;
		t = m * h;
		for (int i = 0; i < 20; ++i, t = t * h) masks[t] = n;
		r.st.hit("masks checked");
		return true;
	};
	auto differ = [&](const std::string &n, const Fp &plain) {
		auto i = el.find(n);
		if (i == el.end()) return true;
		Fp m = i->second - plain;
		if (m.zero()) { r.violate("unmasked:" + zkind(n), "%s is sent without a mask", n.c_str()); return false; }
		return fresh_mask(n, m);
	};
	const ZModel &M = a.M;
	std::vector<std::vector<Vec>> eqs;
	for (int l = M.nl - 1; l >= 1; --l) {
		int n = M.bits[l - 1], ng = M.bits[l];
		Vec r0, r1, ru, rv;
		for (int j = 0; j < ng; ++j) { r0.push_back(ch(l, "r0", j)); r1.push_back(ch(l, "r1", j)); }
		for (int j = 0; j < n; ++j) { ru.push_back(ch(l, "ru", j)); rv.push_back(ch(l, "rv", j)); }
		for (int ph = 1; ph <= 2; ++ph) for (int j = 0; j < n; ++j) {
			Poly q = zplain(M, l, ch(l, "alpha", -1), ch(l, "beta", -1), r0, r1, ru, rv, ph, j);
			std::string k = std::to_string(l) + (ph == 1 ? ":p1:" : ":p2:") + std::to_string(j);
			static const char *c3[] = {".c", ".b", ".a"}, *c6[] = {".f", ".e", ".d", ".c", ".b", ".a"};
			bool last = j == n - 1;
			for (int d = 0; d < (last ? 6 : 3); ++d) if (!differ(k + (last ? c6[d] : c3[d]), d < 3 ? q[d] : Fp())) return;
		}
		Fp pu = ref::mle(M.V[l - 1], ru), pv = ref::mle(M.V[l - 1], rv);
		std::string ln = std::to_string(l);
		if (!differ(ln + ":v_u", pu) || !differ(ln + ":v_v", pv)) return;
		// What the masks add to the claims and what is opened of them: equations in the coefficients of
		// R(x, c) = a0 + a1 x + a2 x^2 + a3 c + a4 c^2 + a5 x c (the inputs: a0 + a1 x).
		// In one layer they are fewer than the coefficients; with the same R in two layers they would be more.
		Fp zu = ZProver::zprod(ru), zv = ZProver::zprod(rv), mu, mv;
		auto iu = el.find(ln + ":v_u"), iv = el.find(ln + ":v_v");
		if (zu.zero() || zv.zero() || iu == el.end() || iv == el.end()) continue;
		mu = (iu->second - pu) / zu; mv = (iv->second - pv) / zv;
		if (!fresh_mask(ln + ":v_u/Z", mu) || !fresh_mask(ln + ":v_v/Z", mv)) return;
		if (l == 1) { // a0 + a1 x at two points: both coefficients are masks of their own
			Fp dx = ru.back() - rv.back();
			if (!dx.zero()) { Fp a1 = (mu - mv) / dx, a0 = mu - a1 * ru.back(); if (!fresh_mask("input mask 0", a0) || !fresh_mask("input mask 1", a1)) return; }
			continue;
		}
		std::vector<Vec> E;
		auto claim = [&](const Fp &x, const Fp &y) { Vec w = {Fp(2), x + x, x * x + x * x, Fp(1), Fp(1), x, y}; E.push_back(w); };
		auto opened = [&](const Fp &x, const Fp &c, const char *n) { auto i = el.find(std::to_string(l - 1) + n); if (i == el.end()) return; Vec w = {Fp(1), x, x * x, c, c * c, x * c, i->second}; E.push_back(w); };
		claim(ru.back(), mu); claim(rv.back(), mv);
		Fp rc = ch(l - 1, "rc", -1);
		opened(ru.back(), rc, ":R1.ans"); opened(rv.back(), rc, ":R2.ans");
		if (E.size() == 4) for (int m = 1; m < 64; ++m) { // three of the coefficients would not do for what is shown of them
			if (__builtin_popcount(m) != 3) continue;
			std::vector<Vec> A;
			for (auto &w : E) { Vec x; for (int k = 0; k < 6; ++k) if (m >> k & 1) x.push_back(w[k]); x.push_back(w[6]); A.push_back(x); }
			if (solvable(A)) { r.violate("mask-too-small:R", "the mask of the claims of layer %d has no more than three coefficients", l); return; }
		}
		for (auto &o : eqs) {
			std::vector<Vec> A = E; A.insert(A.end(), o.begin(), o.end());
			if (A.size() > 6 && solvable(A)) { r.violate("mask-reused:R", "the claims of layer %d carry the mask of those of another layer", l); return; }
			r.st.hit("R masks compared");
		}
		eqs.push_back(E);
	}
	r.st.hit("verdict.accept");
}
} // namespace sim
#include "h_vpd.h"
namespace sim {
static void dispatch(const std::string &prop, Run &r) {
	static bool init = false;
	if (!init) {
		prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
		if (chdir(scratch().c_str())) exit(2);
		init = true;
	}
	if (prop == "C12") run_zk_honest(r);
	else if (prop == "C13") run_zk_sound(r);
	else if (prop == "C14") run_vpd(r);
	else if (prop == "C19") { if (r.ch.pick(3, "what")) run_zk_hiding(r); else run_vpd_hiding(r); }
	else { fprintf(stderr, "unknown property\n"); exit(2); }
}
} // namespace sim
int main(int argc, char **argv) {
	sim::Harness h = {"zk", sim::dispatch, NULL};
	return sim::sim_main(argc, argv, h);
}
