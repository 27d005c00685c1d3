// C04 challenges, C09 circuit files, C10 isolation, C15 hostile messages, and whole programs.
#pragma once
#include "prog.h"
#include <ucontext.h>
#if __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#endif

namespace sim {
// ---------------------------------------------------------------- C15
// Garbage, stale, duplicated, zeroed, unreduced or foreign replies.
struct Hostile : Behaviour {
	int from, len, op, rawop;
	bool raws;
	int n;
	Rng g;
	Poly stale;
	bool used_raw;
	Hostile(Choices &ch, int msgs) : n(0), g(1), used_raw(false) {
		from = ch.pick(msgs + 1, "hostile from message");
		len = ch.pick(3, "hostile for") == 0 ? 1 : ch.pick(2, "hostile for") ? 1 << 20 : 1 + (int)ch.pick(6, "hostile for");
		op = ch.pick(6, "hostile reply");
		raws = ch.chance(1, 2, "unreduced");
		rawop = ch.pick(7, "unreduced kind");
		g = Rng(ch.raw("hostile seed"));
	}
	bool on() { int k = n++; return k >= from && k < from + len; }
	void mess(Fp *v, int c) {
		switch (op) {
			case 0: for (int i = 0; i < c; ++i) v[i] = g.fp(); break;
			case 1: for (int i = 0; i < c; ++i) v[i] = Fp(); break; // crashed
			case 2: for (int i = 0; i < c; ++i) v[i] = -Fp(1); break;
			case 3: v[g.below(c)] += Fp(1); break;
			case 4: for (int i = 0; i < c && i < (int)stale.size(); ++i) v[i] = stale[i]; break;
			default: break; // honest value, perhaps in a strange representation
		}
	}
	virtual void outputs(Session &, Vec &o) { if (on()) mess(o.data(), o.size()); }
	virtual Fp vres(Session &, const Fp &h) { Fp x = h; if (on()) mess(&x, 1); return x; }
	virtual Poly round(Session &, int, int, int, const Poly &h, const Fp &) { Poly m = h; if (on()) mess(m.data(), m.size()); stale = h; return m; }
	virtual void vu(Session &, int, const Fp &h, const Fp &, Fp &ann, Fp &base) { ann = base = h; if (STACK == 1 && on()) mess(&ann, 1); }
	virtual void fin(Session &, int, const Fp &, Fp &vu, Fp &vv) { if (on()) { mess(&vu, 1); mess(&vv, 1); } }
	virtual bool raw(Session &, int, int, FE *v, int c) {
		if (!raws || n - 1 < from || n - 1 >= from + len) return false;
		used_raw = true;
		for (int i = 0; i < c; ++i) {
			if (rawop == 6 && g.below(2)) continue;
			mp_limb_t w[8];
			fe_limbs(v[i], w);
			switch (rawop) {
				case 0: for (auto &x : w) x = ~0ull; break;
				case 1: for (auto &x : w) x = g.next(); break;
				case 2: { mp_limb_t c2 = mpn_add_n(w, w, Fp::P(), 4); w[4] = c2; break; } // congruent
				case 3: w[4] += 1 + g.below(5); break;                                   // beyond 256 bits
				case 4: w[7] = 1ull << 63; break;
				case 5: memset(w, 0, sizeof w); w[5] = 1; break;
				default: for (auto &x : w) x = g.below(2) ? ~0ull : 0; break;
			}
			v[i] = fe_raw(w);
		}
		return true;
	}
};
static int sent_messages(const Transcript &t) {
	int n = t.has_out;
	for (auto &l : t.L) n += l.p0.size() + l.p1.size() + l.p2.size() + l.fin;
	return n;
}
static void run_hostile(Run &r) {
	GenOpt o(STACK_ID);
	o.max_depth = 4; o.max_bits = 3; o.max_logc = 2;
	Circuit c = gen_circuit(r.ch, o);
	Entropy e;
	int em = pick_entropy(r, e);
	pick_world(r);
	r.say("%s", c.brief().c_str());
	Session s;
	setup(s, r, c);
	Hostile b(r.ch, wire_messages(s.model));
	s.beh = &b;
	if (r.ch.chance(1, 6, "replies for another circuit")) {
		Circuit c2; std::string what;
		if (mutate(r.ch, c, c2, what)) { s.use_lied = true; s.lied = Model(c2, STACK_ID); r.fault("foreign-circuit"); }
	}
	s.use_base = !s.use_lied && r.ch.chance(1, 3, "real prover behind");
	int v = run_session(actors(), s, e, c.text());
	finish(r, s);
	static const char *ops[] = {"garbage", "crashed-zeroes", "minus-ones", "off-by-one", "stale", "representation"};
	r.fault(ops[b.op]);
	if (b.used_raw) r.fault("unreduced-values");
	r.state(shape_state(c, em * 16 + b.op * 3 + v + 1000 * b.used_raw));
	r.st.hit(v == V_ACCEPT ? "verdict.accept" : v == V_REJECT ? "verdict.reject" : "verdict.stopped");
	if (v == V_STOPPED || !s.bad_order.empty()) { r.violate("order", "verifier asked out of order: %s", s.bad_order.c_str()); return; }
	if (s.calls > s.max_calls) { r.violate("too-many-requests", "%d requests, the circuit's shape allows %d", s.calls, s.max_calls); return; }
	if (!b.used_raw) {
		RefVerdict rv = ref_verify(s.model, s.T);
		Fp true_vres;
		bool bad_vres = s.T.has_vres && s.T.vres != mle2(s.T.out, s.T.r0, s.T.rb0);
		if (bad_vres && !s.T.L.empty() && s.model.nl > 1) { r.violate("goes-on-after-failed-check", "asked for a layer although the claim on the output had failed"); return; }
		if (!rv.accept && rv.fail_msgs && sent_messages(s.T) > rv.fail_msgs) r.violate("goes-on-after-failed-check", "message %d failed its check (%s), the verifier took %d messages", rv.fail_msgs, rv.why.c_str(), sent_messages(s.T));
	}
}

// ---------------------------------------------------------------- C04
struct Chals { int v; std::vector<Chal> c; uint64_t draws; std::string early, order; };
static Chals chals_of(Run &r, const Circuit &c, Entropy &e, Behaviour *b = NULL, const std::vector<Chal> *watch = NULL, bool base = false) {
	Session s;
	setup(s, r, c);
	s.record_vis = true;
	s.beh = b;
	s.watch = watch;
	s.use_base = base;
	uint64_t d0 = e.draws;
	Chals x;
	bool vb = r.verbose; r.verbose = false;
	x.v = run_session(actors(), s, e, c.text());
	r.verbose = vb;
	x.c = s.chal; x.draws = e.draws - d0; x.early = s.early; x.order = s.bad_order;
	r.note(s.hist);
	r.st.hit("messages", s.msgs);
	r.st.hit("seam_calls", s.calls);
	return x;
}
static bool related(const Fp &a, const Fp &b) { return a == b || a + b == Fp(1) || (a + b).zero() || a == b + Fp(1) || b == a + Fp(1); }
static void run_challenges(Run &r) {
	GenOpt o(STACK_ID);
	bool full = r.ch.chance(1, 60, "every bit");
	o.max_depth = full ? 1 : 3; o.max_bits = full ? 1 : 3; o.max_logc = full ? 1 : 2;
	if (full) o.big = 0;
	Circuit c = gen_circuit(r.ch, o);
	while (full && c.L.size() > 2) c.L.pop_back();
	pick_world(r);
	r.say("%s", c.brief().c_str());
	g_libc_rand = 1; // rand() would be what it is: a stream fixed by its seed
	uint64_t es = r.ch.raw("entropy seed");
	g_libc = Rng(0x5eed0001ull);
	Entropy e; e.configure(ENT_UNIFORM, es);
	Chals k = chals_of(r, c, e);
	r.state(shape_state(c, g_clock.mode));
	if (k.v != V_ACCEPT) { r.probe("not_accepted"); if (!k.order.empty()) r.violate("order", "%s", k.order.c_str()); return; }
	// second session of the same process, its stream goes on
	Chals k2 = chals_of(r, c, e);
	// another process, other entropy
	Entropy f; f.configure(ENT_UNIFORM, es ^ 0x123456789ull);
	g_libc = Rng(0x5eed0001ull);
	Chals k3 = chals_of(r, c, f);
	std::vector<const Chal *> all;
	for (auto &x : k.c) all.push_back(&x);
	for (size_t i = 0; i < k.c.size(); ++i) {
		if (k.c[i].v == Fp(0) || k.c[i].v == Fp(1) || k.c[i].v == Fp(2) || k.c[i].v == -Fp(1)) { r.violate("constant-challenge", "%s is the constant %s", k.c[i].name.c_str(), k.c[i].v.hex().c_str()); return; }
		for (size_t j = 0; j < i; ++j) if (related(k.c[i].v, k.c[j].v)) { r.violate("repeated-challenge", "%s repeats %s", k.c[i].name.c_str(), k.c[j].name.c_str()); return; }
	}
	for (auto &a : k.c) {
		for (auto &b : k2.c) if (related(a.v, b.v)) { r.violate("challenge-shared-between-sessions", "%s of one session is %s of the next", a.name.c_str(), b.name.c_str()); return; }
		for (auto &b : k3.c) if (related(a.v, b.v)) { r.violate("challenge-independent-of-entropy", "%s of one process is %s of another", a.name.c_str(), b.name.c_str()); return; }
	}
	// at least the revealed ones, and the last combination where there is one, were drawn
	size_t need = k.c.size() + (STACK != 1 && c.L.size() > 1 ? 1 : 0);
	if (k.draws < need * 2) { r.violate("too-little-entropy", "%lu draws for %zu challenges", k.draws, need); return; }
	// the same entropy with other inputs, other gates, another prover: the same challenges
	{
		Circuit c2 = c; std::string what;
		int m = 1 + r.ch.pick(3, "differences");
		for (int i = 0; i < m; ++i) { Circuit t; if (mutate(r.ch, c2, t, what)) c2 = t; }
		Entropy g; g.configure(ENT_UNIFORM, es); g_libc = Rng(0x5eed0001ull);
		Chals x = chals_of(r, c2, g, NULL, NULL, r.ch.chance(1, 4, "real prover"));
		for (size_t i = 0; i < x.c.size() && i < k.c.size(); ++i) if (x.c[i].v != k.c[i].v) { r.violate("challenge-depends-on-messages", "%s differs when only the circuit's values differ", k.c[i].name.c_str()); return; }
		if (x.v == V_ACCEPT && x.c.size() != k.c.size()) { r.violate("challenge-depends-on-messages", "another number of challenges"); return; }
		r.probe("other_messages");
		Model mm(c, STACK_ID);
		WireFault wf(r.ch, wire_messages(mm), NULL);
		Entropy g2; g2.configure(ENT_UNIFORM, es); g_libc = Rng(0x5eed0001ull);
		Chals y = chals_of(r, c, g2, &wf);
		for (size_t i = 0; i < y.c.size() && i < k.c.size(); ++i) if (y.c[i].v != k.c[i].v) { r.violate("challenge-depends-on-messages", "%s differs when the prover sends something else", k.c[i].name.c_str()); return; }
		r.fault("wire-fault");
	}
	// nothing shows before its message
	{
		Entropy g; g.configure(ENT_UNIFORM, es); g_libc = Rng(0x5eed0001ull);
		Chals x = chals_of(r, c, g, NULL, &k.c, r.ch.chance(1, 2, "real prover"));
		if (!x.early.empty()) { r.violate("challenge-revealed-early", "%s", x.early.c_str()); return; }
		r.probe("visibility_scans");
	}
	// each bit of entropy reaches at most one challenge, each challenge has many bits
	std::vector<int> bits(k.c.size(), 0);
	uint64_t d0 = 0, total = k.draws;
	size_t probes = full ? total * 32 : 6;
	for (size_t q = 0; q < probes; ++q) {
		Entropy g; g.configure(ENT_UNIFORM, es); g_libc = Rng(0x5eed0001ull);
		g.flip_at = full ? d0 + q / 32 : (long)r.ch.pick(total ? total : 1, "flipped draw");
		g.flip_mask = 1u << (full ? q % 32 : r.ch.pick(32, "flipped bit"));
		Chals x = chals_of(r, c, g);
		r.fault("entropy.bit-flip");
		if (x.c.size() != k.c.size()) { if (x.v == V_ACCEPT) { r.violate("challenge-depends-on-messages", "another number of challenges"); return; } continue; }
		int ch = 0; size_t at = 0;
		for (size_t i = 0; i < x.c.size(); ++i) if (x.c[i].v != k.c[i].v) { if (++ch == 1) at = i; else { r.violate("dependent-challenges", "one bit of entropy changes both %s and %s", k.c[at].name.c_str(), k.c[i].name.c_str()); return; } }
		if (ch) bits[at]++;
	}
	if (full) {
		r.probe("every_bit_flipped");
		for (size_t i = 0; i < bits.size(); ++i) if (bits[i] < 80) { r.violate("too-little-entropy", "%s depends on %d bits of entropy only", k.c[i].name.c_str(), bits[i]); return; }
	}
}

// ---------------------------------------------------------------- C09
// What a file of these bytes describes, from the documented format.
enum { F_GOOD, F_GRAY, F_BAD };
static int ref_parse(const std::string &d, Circuit &c, std::string &why) {
	const char *p = d.data(), *e = p + d.size();
	bool gray = false;
	auto num = [&](long long &x) -> bool {
		while (p < e && (*p == ' ' || (*p >= 9 && *p <= 13))) ++p;
		bool neg = false, any = false, over = false;
		if (p < e && (*p == '-' || *p == '+')) neg = *p++ == '-';
		unsigned long long v = 0;
		while (p < e && *p >= '0' && *p <= '9') { any = true; if (v > (1ull << 62) / 10) over = true; else v = v * 10 + (*p - '0'); ++p; }
		if (!any) return false;
		x = over ? (1ll << 62) : (long long)v;
		if (neg) x = -x;
		return true;
	};
	c = Circuit();
	long long n, t, g, u, v;
	if (!num(n) || n < 1) { why = "layers"; return F_BAD; }
	long long nl = n;
	for (long long l = 0; l < nl; ++l) {
		if (!num(n) || n < 1 || n > (1 << 28)) { why = "width of layer " + std::to_string(l); return F_BAD; }
		std::vector<Gate> G;
		size_t pw = l ? c.L[l - 1].size() : 0, ps = l ? 1ull << bits_for(pw) : 0;
		for (long long k = 0; k < n; ++k) {
			why = "layer " + std::to_string(l) + " gate " + std::to_string(k);
			if (!num(t) || !num(g) || !num(u) || !num(v)) { why += " missing"; return F_BAD; }
			if (g != k) { why += " out of order"; return F_BAD; }
			if (t == T_DUMMY) { G.push_back(Gate(T_DUMMY, 0, 0)); continue; }
			if (l == 0) {
				if (t != T_INPUT) { why += " type"; return F_BAD; }
				if (u < 0 || u > 0x7fffffff) { gray = true; u = 0; }
				G.push_back(Gate(T_INPUT, u, 0));
				continue;
			}
			int top = STACK == 1 ? 10 : 1;
			if (t < 0 || t == T_INPUT || t > top) { why += " type"; return F_BAD; }
			if (t == T_DRELAY) { why += " type"; return F_BAD; }
			if ((t == T_NOT || t == T_RELAY) && v) { gray = true; v = 0; } // documented as unused
			if (u < 0 || v < 0) { why += " operand"; return F_BAD; }
			if (t == T_SUM) {
				if (v > (long long)ps) { why += " operand"; return F_BAD; }
				if (u > v) { gray = true; u = v; }
				if (v > (long long)pw) gray = true;
			} else {
				if (u >= (long long)ps) { why += " operand"; return F_BAD; }
				if (v >= (long long)ps) { why += " operand"; return F_BAD; }
				if (u >= (long long)pw || v >= (long long)pw) gray = true; // wired to padding
			}
			G.push_back(Gate(t, u, v));
		}
		c.L.push_back(G);
	}
	while (p < e && (*p == ' ' || (*p >= 9 && *p <= 13))) ++p;
	if (p < e) gray = true; // something after the circuit
	if (STACK == 2 && c.L.size() > 1000) gray = true;
	why = gray ? "doubtful" : "";
	return gray ? F_GRAY : F_GOOD;
}
static std::string damage(Run &r, const std::string &text, std::string &what) {
	Choices &ch = r.ch;
	std::string d = text;
	if (d.empty()) return d;
	size_t at = ch.pick(d.size(), "where");
	switch (ch.pick(11, "damage")) {
		case 0: d.resize(at); what = "truncated"; break;
		case 1: { static const char cs[] = "0123456789 -\nx+.\0"; d[at] = cs[ch.pick(17, "byte")]; what = "byte-changed"; break; }
		case 2: d[at] ^= 1 << ch.pick(8, "bit"); what = "bit-flipped"; break;
		case 3: d.erase(at, 1 + ch.pick(12, "lost bytes")); what = "bytes-lost"; break;
		case 4: { size_t n = 1 + ch.pick(20, "bytes"); d.insert(at, d.substr(ch.pick(d.size(), "from"), n)); what = "bytes-duplicated"; break; }
		case 5: { size_t n = std::min<size_t>(d.size() - at, 1 + ch.pick(64, "zeroed")); for (size_t i = 0; i < n; ++i) d[at + i] = 0; what = "block-zeroed"; break; }
		case 6: { // torn write: the tail is from another version of the file
			GenOpt o(STACK_ID); o.max_depth = 3; o.max_bits = 2;
			std::string t2 = gen_circuit(ch, o).text();
			d = d.substr(0, at) + (at < t2.size() ? t2.substr(at) : "");
			what = "torn"; break;
		}
		case 7: case 8: case 9: { // one number replaced
			std::vector<std::pair<size_t, size_t>> tok;
			for (size_t i = 0; i < d.size();) { if (isspace((unsigned char)d[i])) { ++i; continue; } size_t j = i; while (j < d.size() && !isspace((unsigned char)d[j])) ++j; tok.push_back(std::make_pair(i, j - i)); i = j; }
			if (tok.empty()) break;
			auto t = tok[ch.pick(ch.pick(3, "token zone") ? tok.size() : std::min<size_t>(tok.size(), 6), "token")];
			static const char *vs[] = {"0", "-1", "1", "2", "3", "4", "5", "6", "10", "11", "7", "16", "17", "255", "65536", "2147483647", "2147483648", "4294967296", "4294967297", "-2147483648", "9223372036854775807", "18446744073709551616", "99999999999999999999999", "x", "1e3", "268435456", "268435457", "1000000", "999999", "8", "9"};
			std::string v = ch.pick(3, "value") ? vs[ch.pick(31, "value")] : std::to_string(ch.pick(40, "value"));
			d.replace(t.first, t.second, v);
			what = "number-replaced"; break;
		}
		default: { // a line dropped
			size_t a = d.rfind('\n', at), b = d.find('\n', at);
			a = a == std::string::npos ? 0 : a;
			b = b == std::string::npos ? d.size() : b;
			d.erase(a, b - a); what = "line-lost"; break;
		}
	}
	return d;
}
static bool sig_bad(const ChildEnd &e) { return e.asan || (e.signaled && e.sig != SIGABRT); }
static void run_files(Run &r) {
	Choices &ch = r.ch;
	GenOpt o(STACK_ID);
	o.max_depth = 3; o.max_bits = 3; o.max_logc = 2; o.diff_inputs = false;
	Circuit c = gen_circuit(ch, o);
	std::string text = c.text(ch.pick(4, "file layout")), what = "intact";
	pick_world(r);
	g_clock.mode = 0;
	std::string dir = scratch() + "/run";
	mkdir(dir.c_str(), 0755);
	bool probe = ch.chance(1, 100, "large input probe");
	int copies = STACK == 2 ? 1 + (int)ch.pick(2, "copies") : 1 << c.logc;
	if (probe) { // an input that does not fit a machine int
		text = "2\n2 3 0 4286316544 0 3 1 1 0\n1 0 0 0 1\n";
		c = Circuit();
		c.L.push_back({Gate(T_INPUT, 4286316544ll, 0), Gate(T_INPUT, 1, 0)});
		c.L.push_back({Gate(T_ADD, 0, 1)});
	}
	ReadPlan &rp = g_read;
	rp.name = "test_circuit.txt"; rp.active = true; rp.seed = ch.raw("read sizes");
	static const size_t chunks[] = {0, 1, 2, 7, 64, 512};
	rp.max_chunk = chunks[ch.pick(6, "read size")];
	if (rp.max_chunk) r.fault("disk.short-reads");
	rp.data = text;
	int plan = probe ? 0 : ch.pick(8, "file fault");
	bool eio = false;
	if (plan == 1) { rp.missing = true; what = "missing"; }
	else if (plan == 2) { rp.eio_at = ch.pick(text.size() + 1, "read error at"); eio = true; what = "read-error"; }
	else if (plan == 3) { rp.data.resize(ch.pick(text.size() + 1, "file ends at")); what = "truncated"; }
	else if (plan >= 4) { int n = 1 + (plan == 7 ? ch.pick(3, "damages") : 0); for (int i = 0; i < n; ++i) rp.data = damage(r, rp.data, what); }
	r.fault(("disk." + what).c_str());
	// code that reads the file some other way sees the same bytes
	if (!rp.missing) write_file(dir + "/test_circuit.txt", eio ? rp.data.substr(0, rp.eio_at) : rp.data);
	else unlink((dir + "/test_circuit.txt").c_str());
	Circuit want;
	std::string why;
	int kind;
	if (probe) { want = c; kind = F_GOOD; }
	else if (rp.missing) { kind = F_BAD; why = "missing"; }
	else {
		kind = ref_parse(eio ? rp.data.substr(0, rp.eio_at) : rp.data, want, why);
		if (eio) { // the last number may be complete or not: nothing is certain at the very end
			Circuit w2; std::string y2;
			int k2 = ref_parse(rp.data, w2, y2);
			(void)k2;
			if (kind == F_GOOD) kind = F_GRAY;
		}
	}
	want.logc = STACK == 3 ? c.logc : 0;
	r.say("file %s (%s), %zu bytes, read size %zu, copies %d: %s", what.c_str(), kind == F_GOOD ? "well-formed" : kind == F_GRAY ? "doubtful" : "not well-formed", rp.data.size(), rp.max_chunk, copies, why.c_str());
	if (r.verbose) r.say("delivered: %.600s", rp.data.c_str());
	g_alloc_limit = 64u << 20;
	Entropy e; e.configure(ENT_UNIFORM, ch.raw("entropy seed"));
	set_entropy(&e);
	ChildEnd ce;
	r.st.hit(std::string("file.") + (kind == F_GOOD ? "well-formed" : kind == F_GRAY ? "doubtful" : "not-well-formed"));
	if (kind == F_GOOD) {
		std::vector<Session> ss(STACK == 2 ? copies : 1);
		std::vector<Session *> sp;
		bool vb = r.verbose; r.verbose = false;
		for (auto &s : ss) { setup(s, r, want); s.use_base = true; s.compare = true; sp.push_back(&s); }
		ce = run_program(sp, dir, copies, want.logc);
		r.verbose = vb;
		ProgShared &ps = prog_shared();
		r.note(ps.hist);
		std::string tag = probe ? "input-beyond-int" : "";
		if (sig_bad(ce) || ce.hung) r.violate(ce.hung ? "hang" : "memory", "well-formed file: %s", ce.hung ? "no end" : "memory error");
		else if (ps.sessions != (int)ss.size()) r.violate(probe ? tag : "well-formed-refused", "well-formed circuit not taken (status %d)", ce.code);
		else if (ps.mism) r.violate(probe ? tag : "ingested-otherwise", "the program works on another circuit than the file describes: %s", ps.what);
		else if (!says_pass(ce.out)) r.violate(probe ? tag : "well-formed-fails", "no success reported for an honest run");
	} else {
		ce = run_program_plain(dir, copies, want.logc);
		if (sig_bad(ce)) r.violate("memory", "memory error (signal %d) on a %s file", ce.sig, what.c_str());
		else if (ce.hung) r.violate("hang", "no end on a %s file", what.c_str());
		else if (kind == F_BAD && says_pass(ce.out)) r.violate("malformed-accepted", "success reported for a file that is not a circuit: %s", why.c_str());
		r.note((uint64_t)ce.code * 4 + ce.signaled * 2 + says_pass(ce.out));
	}
	uint64_t h = 7;
	for (char x : rp.data) h = mix64(h ^ (unsigned char)x);
	r.note(h + rp.eio_at);
	r.state(mix64(std::hash<std::string>()(what + why) + kind * 7 + (ce.code + 256 * ce.signaled)));
	set_entropy(NULL);
}

// ---------------------------------------------------------------- C10
struct Coro {
	ucontext_t ctx;
	std::vector<char> stack;
	std::function<void()> fn;
	bool done, started;
	void *fake;
	Coro() : done(false), started(false), fake(NULL) {}
};
static ucontext_t g_sched;
static Coro *g_coro = NULL;
static void *g_sched_fake = NULL;
static const void *g_sched_bottom = NULL;
static size_t g_sched_size = 0;
static void fiber_start(void **save, const void *bottom, size_t size) {
#if __has_feature(address_sanitizer)
	__sanitizer_start_switch_fiber(save, bottom, size);
#else
	(void)save; (void)bottom; (void)size;
#endif
}
static void fiber_finish(void *save, const void **bottom, size_t *size) {
#if __has_feature(address_sanitizer)
	__sanitizer_finish_switch_fiber(save, bottom, size);
#else
	(void)save; (void)bottom; (void)size;
#endif
}
static void coro_main() {
	fiber_finish(NULL, &g_sched_bottom, &g_sched_size);
	g_coro->fn();
	g_coro->done = true;
	fiber_start(NULL, g_sched_bottom, g_sched_size);
	swapcontext(&g_coro->ctx, &g_sched);
}
static void coro_yield() {
	Coro *c = g_coro;
	fiber_start(&c->fake, g_sched_bottom, g_sched_size);
	swapcontext(&c->ctx, &g_sched);
	fiber_finish(c->fake, &g_sched_bottom, &g_sched_size);
}
static void coro_resume(Coro &c) {
	if (!c.started) {
		c.started = true;
		c.stack.resize(1 << 19);
		getcontext(&c.ctx);
		c.ctx.uc_stack.ss_sp = c.stack.data(); c.ctx.uc_stack.ss_size = c.stack.size();
		c.ctx.uc_link = NULL;
		makecontext(&c.ctx, coro_main, 0);
	}
	g_coro = &c;
#if STACK == 4
	threads_main_stack(c.stack.data(), c.stack.size());
#endif
	fiber_start(&g_sched_fake, c.stack.data(), c.stack.size());
	swapcontext(&g_sched, &c.ctx);
	fiber_finish(g_sched_fake, NULL, NULL);
	g_coro = NULL;
}
struct Plan { // one session of a C10 run
	Circuit c;
	std::string text;
	uint64_t eseed;
	int em, kind; // kind 0 honest, 1 wire fault, 2 false wire
	std::vector<uint64_t> wf;
	Model::Flip flip;
	int abandon_at; // seam call after which it is never resumed (-1: never)
	int reuse;      // index of an earlier session whose objects it reuses (-1: own)
	uint64_t hist; int verdict;
};
struct Live {
	Session s;
	Entropy e;
	std::unique_ptr<Behaviour> b;
	std::unique_ptr<Choices> bc;
	Coro co;
	Actors *a;
	bool own, abandoned, finished;
	int verdict;
	Live() : a(NULL), own(false), abandoned(false), finished(false), verdict(-1) {}
};
static void prepare(Live &l, Plan &p, Run &r) {
	setup(l.s, r, p.c);
	l.e.configure(p.em, p.eseed);
	l.s.use_base = p.kind != 2;
	if (p.kind == 1) { l.bc.reset(new Choices(p.wf)); l.b.reset(new WireFault(*l.bc, wire_messages(l.s.model), NULL)); l.s.beh = l.b.get(); }
	if (p.kind == 2) { std::vector<Model::Flip> f(1, p.flip); l.s.use_lied = true; l.s.lied = Model(p.c, STACK_ID, f); }
}
struct SoloArg { Plan *p; Run *r; };
static void solo_child(void *x) {
	SoloArg &a = *(SoloArg *)x;
	Live l;
	prepare(l, *a.p, *a.r);
	Actors act;
	if (a.p->abandon_at >= 0) l.s.on_call = [&](const char *) { if (l.s.calls == a.p->abandon_at) throw 7; };
	int v;
	try { v = run_session(act, l.s, l.e, a.p->text); } catch (...) { v = 99; }
	if (l.s.calls == a.p->abandon_at) v = 99;
	printf("%lx %d\n", v == 99 ? 0 : l.s.hist, v);
}
static void run_isolation(Run &r) {
	Choices &ch = r.ch;
	int n = 2 + ch.pick(3, "sessions");
	std::vector<Plan> P(n);
	pick_world(r);
	GenOpt o(STACK_ID);
	o.max_depth = 3; o.max_bits = 3; o.max_logc = 2;
	for (int i = 0; i < n; ++i) {
		Plan &p = P[i];
		if (i && ch.chance(1, 4, "same circuit")) p.c = P[i - 1].c; else p.c = gen_circuit(ch, o);
		p.text = p.c.text();
		p.eseed = ch.raw("entropy seed");
		p.em = ch.chance(1, 4, "entropy fault") ? (int)ch.pick(ENT_MODES, "entropy mode") : ENT_UNIFORM;
		p.kind = ch.pick(4, "session kind"); if (p.kind == 3) p.kind = 0;
		if (p.kind == 1) { Choices wc(ch.raw("wire fault seed")); Model m(p.c, STACK_ID); WireFault w(wc, wire_messages(m), NULL); p.wf = wc.rec; r.fault("wire-fault"); }
		if (p.kind == 2) { Model m(p.c, STACK_ID); p.flip.layer = ch.pick(m.nl, "false layer"); p.flip.copy = ch.pick(1u << m.logc, "false copy"); p.flip.g = ch.pick(1u << m.bits[p.flip.layer], "false gate"); p.flip.d = Fp(1 + ch.pick(100, "false by")); r.fault("false-wire"); }
		Session t; setup(t, r, p.c);
		p.abandon_at = ch.chance(1, 5, "abandoned") ? (int)ch.pick(t.max_calls, "abandoned at") + 1 : -1;
		p.reuse = i && ch.chance(1, 2, "reuse objects") ? (int)ch.pick(i, "whose objects") : -1;
		r.say("session %d: kind %d, %s, reuse %d, abandoned at %d", i, p.kind, p.c.brief().c_str(), p.reuse, p.abandon_at);
	}
	// alone, each in a fresh process
	bool vb = r.verbose; r.verbose = false;
	for (auto &p : P) {
		SoloArg a = {&p, &r};
		ChildEnd e = in_child(solo_child, &a, 30);
		if (sscanf(e.out.c_str(), "%lx %d", &p.hist, &p.verdict) != 2) { r.verbose = vb; r.violate("crash-alone", "a session alone ended with signal %d", e.sig); return; }
	}
	Threads threads;
	// interleaved in this process
	std::vector<std::unique_ptr<Live>> L;
	for (int i = 0; i < n; ++i) {
		L.emplace_back(new Live());
		Live &l = *L[i];
		prepare(l, P[i], r);
		Plan &p = P[i];
		Live *lp = &l;
		l.s.on_call = [lp, &p](const char *) {
			if (lp->s.calls == p.abandon_at) { lp->abandoned = true; }
			coro_yield();
		};
	}
	int steps = 0, alive = n, last = -1, switches = 0;
	int sticky = ch.pick(3, "scheduler"); // 0 uniform, 1 long slices, 2 one after the other
	uint64_t order = 17;
	std::string path = scratch() + "/c10-";
	for (int i = 0; i < n; ++i) write_file(path + std::to_string(i), P[i].text);
	Rng sched(ch.raw("schedule"));
	while (alive && steps < 200000) {
		std::vector<int> ready;
		for (int i = 0; i < n; ++i) {
			Live &l = *L[i];
			if (l.finished || l.abandoned) continue;
			if (!l.co.started && P[i].reuse >= 0) { Live &q = *L[P[i].reuse]; if (!q.finished && !q.abandoned) continue; }
			ready.push_back(i);
		}
		if (ready.empty()) break;
		int k = ready[sched.below(ready.size())];
		if (sticky && last >= 0 && std::find(ready.begin(), ready.end(), last) != ready.end() && (sticky == 2 || sched.below(8))) k = last;
		if (sticky == 2 && last < 0) k = ready[0];
		if (k != last) { ++switches; order = mix64(order ^ (k + steps)); }
		last = k;
		Live &l = *L[k];
		if (!l.co.started) {
			// objects of an abandoned session are not taken over: its verifier is still inside verify()
			if (P[k].reuse >= 0 && L[P[k].reuse]->a && !L[P[k].reuse]->abandoned) { l.a = L[P[k].reuse]->a; L[P[k].reuse]->a = NULL; r.probe("objects_reused"); }
			if (!l.a) { l.a = new Actors(); l.a->fresh(); }
			l.own = true;
			std::string f = path + std::to_string(k);
			Live *lp = &l;
			l.co.fn = [lp, f]() {
				load(*lp->a, lp->s, f);
				lp->verdict = verify(*lp->a, lp->s);
				lp->finished = true;
			};
		}
		set_entropy(&l.e);
		coro_resume(l.co);
		set_entropy(NULL);
		++steps;
		if (l.finished || l.abandoned) --alive;
	}
	r.verbose = vb;
	r.st.hit("context_switches", switches);
	r.note(order);
	for (int i = 0; i < n; ++i) {
		Live &l = *L[i];
		finish(r, l.s);
		if (l.abandoned) { r.fault("session-abandoned"); continue; }
		if (!l.finished) { r.violate("stuck", "session %d never ended", i); break; }
		if (l.verdict != P[i].verdict) { r.violate("verdict-differs", "session %d: %d alone, %d among others", i, P[i].verdict, l.verdict); break; }
		if (l.s.hist != P[i].hist) { r.violate("history-differs", "session %d: messages or challenges differ from the same session alone", i); break; }
		r.st.hit(l.verdict == V_ACCEPT ? "verdict.accept" : "verdict.reject");
	}
	r.state(mix64(order));
	for (auto &l : L) if (l->a) delete l->a;
}

// ---------------------------------------------------------------- whole programs
static void run_program_honest(Run &r) {
	Choices &ch = r.ch;
	GenOpt o(STACK_ID);
	o.max_depth = 3; o.max_bits = 3; o.diff_inputs = false;
	Circuit c = gen_circuit(ch, o);
	int copies = STACK == 2 ? 1 + (int)ch.pick(ch.chance(1, 8, "many copies") ? 24 : 5, "copies") : 1 << c.logc;
	Entropy e;
	pick_entropy(r, e);
	pick_world(r);
	r.say("whole program, copies %d, %s", copies, c.brief().c_str());
	std::string dir = scratch() + "/run";
	mkdir(dir.c_str(), 0755);
	write_file(dir + "/test_circuit.txt", c.text(ch.pick(4, "file layout")));
	set_entropy(&e);
	std::vector<Session> ss(STACK == 2 ? copies : 1);
	std::vector<Session *> sp;
	bool vb = r.verbose; r.verbose = false;
	for (auto &s : ss) { setup(s, r, c); s.use_base = true; s.compare = true; sp.push_back(&s); }
	ChildEnd ce = run_program(sp, dir, copies, c.logc);
	r.verbose = vb;
	set_entropy(NULL);
	ProgShared &ps = prog_shared();
	r.note(ps.hist);
	r.probe("whole_program");
	r.state(shape_state(c, copies));
	if (sig_bad(ce) || ce.signaled || ce.hung) r.violate("program-crash", "the program %s on an honest run", ce.hung ? "does not end" : "crashes");
	else if (ps.mism) r.violate("message:program", "%s", ps.what);
	else if (ps.sessions != (int)ss.size()) r.violate("program-sessions", "%d sessions for %zu copies", ps.sessions, ss.size());
	else if (!says_pass(ce.out) || says_fail(ce.out) || ce.code) r.violate("honest-rejected", "the program reports no success on an honest run");
}
static void run_program_sound(Run &r) {
	Choices &ch = r.ch;
	GenOpt o(STACK_ID);
	o.max_depth = 3; o.max_bits = 2; o.max_logc = 2; o.diff_inputs = false;
	Circuit c = gen_circuit(ch, o);
	int copies = STACK == 2 ? 1 + (int)ch.pick(ch.chance(1, 8, "many copies") ? 24 : 4, "copies") : 1 << c.logc;
	Entropy e; e.configure(ENT_UNIFORM, ch.raw("entropy seed"));
	pick_world(r);
	r.say("whole program, copies %d, %s", copies, c.brief().c_str());
	std::string dir = scratch() + "/run";
	mkdir(dir.c_str(), 0755);
	write_file(dir + "/test_circuit.txt", c.text());
	set_entropy(&e);
	int n = STACK == 2 ? copies : 1;
	std::vector<Session> ss(n);
	std::vector<Session *> sp;
	std::vector<std::unique_ptr<Behaviour>> bs;
	bool vb = r.verbose; r.verbose = false;
	int bad = ch.pick(n, "cheating copy");
	for (int i = 0; i < n; ++i) {
		Session &s = ss[i];
		setup(s, r, c);
		sp.push_back(&s);
		s.use_base = true;
		if (i != bad && !ch.chance(1, 4, "also cheating")) continue;
		s.use_base = false;
		switch (ch.pick(3, "attack")) {
			case 0: bs.emplace_back(new WireFault(ch, wire_messages(s.model), NULL)); s.beh = bs.back().get(); r.fault("wire-fault"); break;
			case 1: { Circuit c2; std::string what; if (mutate(ch, c, c2, what)) { s.use_lied = true; s.lied = Model(c2, STACK_ID); } r.fault("other-circuit"); break; }
			default: { std::vector<Model::Flip> f(1); f[0].layer = ch.pick(s.model.nl, "false layer"); f[0].copy = ch.pick(1u << s.model.logc, "false copy"); f[0].g = ch.pick(1u << s.model.bits[f[0].layer], "false gate"); f[0].d = pattern(ch); s.use_lied = true; s.lied = Model(c, STACK_ID, f); r.fault("false-wire"); break; }
		}
	}
	ChildEnd ce = run_program(sp, dir, copies, c.logc);
	r.verbose = vb;
	set_entropy(NULL);
	ProgShared &ps = prog_shared();
	r.note(ps.hist);
	r.probe("whole_program");
	r.state(shape_state(c, copies * 8 + bad));
	r.say("program said %s; %d sessions, %d with false outputs, %d rejected by the reference", says_pass(ce.out) ? "Pass" : "no Pass", ps.sessions, ps.false_out, ps.ref_rejects);
	if (says_pass(ce.out) && ps.false_out) r.violate("program-accepts-false-output", "the program reports success although %d of %d sessions claimed false outputs", ps.false_out, ps.sessions);
	else if (says_pass(ce.out) && ps.ref_rejects) r.violate("program-check-not-enforced", "the program reports success although the reference verifier rejects %d of %d sessions", ps.ref_rejects, ps.sessions);
	else if (says_pass(ce.out) && ps.sessions < n) r.violate("program-sessions", "success after %d of %d sessions", ps.sessions, n);
}
} // namespace sim
