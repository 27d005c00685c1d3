// Circuit and meta files of the zero-knowledge program under file faults (C12).
#pragma once
namespace sim {
enum { ZF_GOOD, ZF_GRAY, ZF_BAD };
struct ZTok { // numbers the way the format has them
	const char *p, *e;
	bool over;
	ZTok(const std::string &d) : p(d.data()), e(d.data() + d.size()), over(false) {}
	void skip() { while (p < e && (*p == ' ' || (*p >= 9 && *p <= 13))) ++p; }
	bool num(long long &x) {
		skip();
		bool neg = false, any = false;
		if (p < e && (*p == '-' || *p == '+')) neg = *p++ == '-';
		unsigned long long v = 0;
		bool o = false;
		while (p < e && *p >= '0' && *p <= '9') { any = true; if (v > (1ull << 62) / 10) o = true; else v = v * 10 + (*p - '0'); ++p; }
		if (!any) return false;
		if (o) over = true;
		x = o ? (1ll << 62) : (long long)v;
		if (neg) x = -x;
		return true;
	}
};
// what a circuit file of these bytes describes
static int zparse(const std::string &d, ZCirc &c, std::string &why) {
	ZTok k(d);
	bool gray = false;
	c = ZCirc();
	long long nl, n, t, g, u, v;
	if (!k.num(nl) || nl < 1) { why = "layers"; return ZF_BAD; }
	for (long long l = 0; l < nl; ++l) {
		if (!k.num(n) || n < 1 || n > (1 << 28)) { why = "width of layer " + std::to_string(l); return ZF_BAD; }
		std::vector<ZGate> G;
		size_t pw = l ? c.L[l - 1].size() : 0;
		long long ps = l ? 1ll << zbits(pw) : 0;
		for (long long i = 0; i < n; ++i) {
			why = "layer " + std::to_string(l) + " gate " + std::to_string(i);
			if (!k.num(t) || !k.num(g) || !k.num(u) || !k.num(v)) { why += " missing"; return ZF_BAD; }
			if (g != i) { why += " out of order"; return ZF_BAD; }
			if (t == 2) { G.push_back({2, 0, 0}); continue; }
			if (l == 0) {
				if (t != 3) { why += " type"; return ZF_BAD; }
				if (u < 0 || u > 0x7fffffff) { gray = true; u = 0; }
				G.push_back({3, u, 0});
				continue;
			}
			if (t < 0 || t == 3 || t == 4 || t == 11 || t > 13) { why += " type"; return ZF_BAD; }
			if ((t == 6 || t == 10) && v) { gray = true; v = 0; }
			if (u < 0 || v < 0 || v > ps || (t != 5 && v == ps) || (t != 5 && u >= ps)) { why += " operand"; return ZF_BAD; }
			if (t == 5) { if (u > v) { gray = true; u = v; } if (v > (long long)pw) gray = true; }
			else if (u >= (long long)pw || v >= (long long)pw) gray = true; // wired to padding
			if (t == 12 && (u > v || v - u + 1 > 63)) { why += " range"; return ZF_BAD; }
			if (t == 13 && u != v) { why += " operands"; return ZF_BAD; }
			G.push_back({(int)t, u, v});
		}
		c.L.push_back(G);
		c.M.push_back({0, 0, 0});
	}
	k.skip();
	if (k.p < k.e || k.over) gray = true;
	why = gray ? "doubtful" : "";
	return gray ? ZF_GRAY : ZF_GOOD;
}
// the meta file only says which layers repeat a block: five numbers for each layer
static int zmeta(const std::string &d, size_t layers, std::string &why) {
	ZTok k(d);
	bool gray = false;
	for (size_t l = 0; l < layers; ++l) for (int i = 0; i < 5; ++i) {
		long long x;
		if (!k.num(x)) { why = "meta of layer " + std::to_string(l); return ZF_BAD; }
		if (x < -0x80000000ll || x > 0x7fffffff) gray = true;
	}
	k.skip();
	if (k.p < k.e || k.over) gray = true;
	why = gray ? "doubtful meta" : "";
	return gray ? ZF_GRAY : ZF_GOOD;
}
static std::string zdamage(Run &r, const std::string &text, bool meta, std::string &what) {
	Choices &ch = r.ch;
	std::string d = text;
	if (d.empty()) return d;
	size_t at = ch.pick(d.size(), "where");
	switch (ch.pick(11, "damage")) {
		case 0: d.resize(at); what = "truncated"; break;
		case 1: { static const char cs[] = "0123456789 -\nx+.\0"; d[at] = cs[ch.pick(17, "byte")]; what = "byte-changed"; break; }
		case 2: d[at] ^= 1 << ch.pick(8, "bit"); what = "bit-flipped"; break;
		case 3: d.erase(at, 1 + ch.pick(12, "lost bytes")); what = "bytes-lost"; break;
		case 4: { size_t n = 1 + ch.pick(20, "bytes"); d.insert(at, d.substr(ch.pick(d.size(), "from"), n)); what = "bytes-duplicated"; break; }
		case 5: { size_t n = std::min<size_t>(d.size() - at, 1 + ch.pick(64, "zeroed")); for (size_t i = 0; i < n; ++i) d[at + i] = 0; what = "block-zeroed"; break; }
		case 6: {
			ZGen o; o.max_depth = 3; o.max_bits = 2; o.deep = 0;
			ZCirc x = zgen(ch, o);
			std::string t2 = meta ? x.meta() : x.text();
			d = d.substr(0, at) + (at < t2.size() ? t2.substr(at) : "");
			what = "torn"; break;
		}
		case 7: case 8: case 9: {
			std::vector<std::pair<size_t, size_t>> tok;
			for (size_t i = 0; i < d.size();) { if (isspace((unsigned char)d[i])) { ++i; continue; } size_t j = i; while (j < d.size() && !isspace((unsigned char)d[j])) ++j; tok.push_back(std::make_pair(i, j - i)); i = j; }
			if (tok.empty()) break;
			auto t = tok[ch.pick(ch.pick(3, "token zone") ? tok.size() : std::min<size_t>(tok.size(), 6), "token")];
			static const char *vs[] = {"0", "-1", "1", "2", "3", "4", "5", "6", "10", "11", "12", "13", "14", "7", "16", "17", "255", "65536", "2147483647", "2147483648", "4294967296", "4294967297", "-2147483648", "9223372036854775807", "31", "32", "62", "63", "64"};
			d.replace(t.first, t.second, ch.pick(3, "value") ? vs[ch.pick(29, "value")] : std::to_string(ch.pick(40, "value")));
			what = "number-replaced"; break;
		}
		default: {
			size_t a = d.rfind('\n', at), b = d.find('\n', at);
			a = a == std::string::npos ? 0 : a;
			b = b == std::string::npos ? d.size() : b;
			d.erase(a, b - a); what = "line-lost"; break;
		}
	}
	return d;
}
struct ZFileEnd { int ran, verdict, same; };
struct ZFileRun { Run *r; const ZCirc *c; Entropy e; ZFileEnd *w; const std::string *files; };
static void zfile_child(void *p) {
	ZFileRun *a = (ZFileRun *)p;
	ZSession s;
	a->w->ran = 1;
	int v = zrun(s, *a->r, *a->c, a->e, NULL, a->files);
	a->w->verdict = v;
	a->w->same = s.sent_out == s.M.out();
	a->w->ran = 2;
	_exit(0);
}
static void run_zk_files(Run &r, const ZCirc &c0, Entropy &e) {
	Choices &ch = r.ch;
	std::string files[2] = {c0.text(ch.pick(4, "layout")), c0.meta()}, what = "intact";
	static const char *names[] = {"circuit.txt", "meta.txt"};
	int which = ch.pick(2, "which file");
	ReadPlan &rp = g_read;
	rp.name = names[which]; rp.seed = ch.raw("read sizes");
	static const size_t chunks[] = {0, 1, 2, 7, 64, 512};
	rp.max_chunk = chunks[ch.pick(6, "read size")];
	if (rp.max_chunk) r.fault("disk.short-reads");
	int plan = ch.pick(8, "file fault");
	std::string &d = files[which];
	bool eio = false;
	if (plan == 1) { rp.missing = true; what = "missing"; }
	else if (plan == 2) { rp.eio_at = ch.pick(d.size() + 1, "read error at"); eio = true; what = "read-error"; }
	else if (plan == 3) { d.resize(ch.pick(d.size() + 1, "file ends at")); what = "truncated"; }
	else if (plan >= 4) { int n = 1 + (plan == 7 ? ch.pick(3, "damages") : 0); for (int i = 0; i < n; ++i) d = zdamage(r, d, which, what); }
	r.fault(("disk." + what).c_str());
	rp.data = d;
	if (eio) d.resize(rp.eio_at);
	ZCirc want;
	std::string why;
	int kind = rp.missing && which == 0 ? ZF_BAD : zparse(files[0], want, why);
	if (kind != ZF_BAD) {
		std::string wm;
		int k = rp.missing ? ZF_BAD : zmeta(files[1], want.L.size(), wm);
		if (k > kind) { kind = k; why = wm; }
	}
	if (eio && kind == ZF_GOOD) { kind = ZF_GRAY; why = "ends in a read error"; }
	r.say("%s %s (%s), %zu bytes, read size %zu: %s", names[which], what.c_str(), kind == ZF_GOOD ? "well-formed" : kind == ZF_GRAY ? "doubtful" : "not well-formed", rp.data.size(), rp.max_chunk, why.c_str());
	if (r.verbose) r.say("delivered: %.600s", rp.data.c_str());
	r.st.hit(std::string("file.") + (kind == ZF_GOOD ? "well-formed" : kind == ZF_GRAY ? "doubtful" : "not-well-formed"));
	r.state(mix64(std::hash<std::string>()(what + why) + kind * 7 + which));
	g_alloc_limit = 256u << 20;
	rp.active = true;
	ChildEnd ce;
	if (kind == ZF_GOOD) {
		ZFileEnd *w = (ZFileEnd *)mmap(NULL, sizeof *w, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		ZFileRun a = {&r, &want, e, w, files};
		ce = in_child(zfile_child, &a, 60);
		r.note((uint64_t)w->ran * 4 + w->verdict * 2 + w->same);
		if (ce.hung || ce.asan || (ce.signaled && ce.sig != SIGABRT)) r.violate(ce.hung ? "hang" : "memory", "well-formed files: %s", ce.hung ? "no end" : "memory error");
		else if (w->ran != 2) r.violate("well-formed-refused", "well-formed circuit and meta file not taken (status %d)", ce.code);
		else if (!w->same) r.violate("ingested-otherwise", "the run works on another circuit than the file describes");
		else if (w->verdict != 1) r.violate("well-formed-fails", "honest run on well-formed files rejected");
		munmap(w, sizeof *w);
	} else {
		zclean();
		for (int i = 0; i < 2; ++i) if (rp.missing && which == i) unlink((scratch() + "/" + names[i]).c_str()); else write_file(scratch() + "/" + names[i], files[i]);
		set_entropy(&e);
		ZProgArgs a = {scratch()};
		ce = in_child(zprog_child, &a, 60);
		set_entropy(NULL);
		bool pass = ce.out.find("Pass") != std::string::npos;
		r.note((uint64_t)ce.code * 4 + ce.signaled * 2 + pass);
		if (ce.hung) r.violate("hang", "no end on a %s %s", what.c_str(), names[which]);
		else if (ce.asan || (ce.signaled && ce.sig != SIGABRT)) r.violate("memory", "memory error (signal %d) on a %s %s", ce.sig, what.c_str(), names[which]);
		else if (kind == ZF_BAD && pass) r.violate("malformed-accepted", "Pass reported though the %s is not well-formed: %s", names[which], why.empty() ? what.c_str() : why.c_str());
		zclean();
	}
	rp = ReadPlan();
	g_alloc_limit = 3ull << 30;
}
} // namespace sim
