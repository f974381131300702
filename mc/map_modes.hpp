// Which part of the behaviour space each property explores.
static const int CR = 1 << CRASH_BEFORE | 1 << CRASH_TORN | 1 << CRASH_HALF;
static const int FL = 1 << FAIL_ECC | 1 << FAIL_FF | 1 << FAIL_GOOD | 1 << FAIL_OLD;
static const int RD = 1 << RD_ONCE | 1 << RD_PERSIST;
static std::vector<int> C(std::initializer_list<const char *> l) { std::vector<int> v; for (auto s : l) v.push_back(cfg(s)); return v; }
static std::vector<int> all_cfgs() { std::vector<int> v; for (size_t i = 0; i < cfgs.size(); i++) if (!cfgs[i].big) v.push_back(i); return v; }
static std::vector<int> but(std::initializer_list<const char *> l) { std::vector<int> v = all_cfgs(); for (auto s : l) v.erase(std::remove(v.begin(), v.end(), cfg(s)), v.end()); return v; }
static bool big = false;
static void set_mode(const std::string &p, bool th) {
	int n = atoi(p.c_str() + 1); wanted = T(n); Mode &m = mode;
	m.wls = {0, 1, 2, 3, 4, 5, 6, 7}; m.cfgs = all_cfgs(); m.ops = "WTYSGC"; m.epi = "";
	// gc ratio 255 makes single calls thousands of flash operations long: left out where each of them is a choice point
	const std::vector<int> nogc255 = but({"p256b2gc255"});
	switch (n) {
	case 1: m.ops = "WTYSGCFMPQ"; m.depth = 3; m.stride = th ? 1 : 13; break;
	case 2: m.ops = "WTYSGCFM"; m.depth = 2; m.alts = CR; m.ndev = 1; m.cfgs = nogc255; m.stride = th ? 3 : 23; m.epi = "s"; break;
	case 3: case 4: m.cfgs = nogc255; if (big) { m.alts = CR | 1 << RD_ONCE; m.ndev = m.nested = 2; m.depth = 2; m.ops = "wtySG"; m.stride = th ? 19 : 53; m.epi = "c"; break; }       // a read error and a power loss
		 m.alts = CR; m.ndev = 1; m.depth = th ? 3 : 2; m.ops = "wtySGCF"; m.stride = th ? 11 : 13; m.epi = "c"; break;
	case 5: m.cfgs = but({"p256b2gc255", "p4kb32"}); m.alts = CR; m.ndev = th ? 2 : 1; m.depth = 1; m.post_depth = 1; m.ops = th ? "wtSG" : "wtySGC"; m.stride = th ? 11 : 23; m.epi = th ? "c" : "cl"; break;
	case 6: m.cfgs = nogc255; m.alts = CR; m.ndev = 1; m.depth = th ? 2 : 1; m.ops = "wtYSGCQR"; m.stride = th ? 11 : 5; m.epi = "s"; want_c6 = want_rdmount = true; break;
	case 7: case 8: m.cfgs = nogc255; m.alts = FL; m.ndev = 2; m.nested = 2; m.depth = 1; m.stride = th ? 2 : 17; m.ops = "wtYSGCQ"; m.epi = "s"; if (th) { m.ndev = 3; m.nested = 3; m.stride = 31; } break;
	case 9: m.cfgs = nogc255; m.alts = CR | FL; m.ndev = 2; m.nested = 2; m.depth = th ? 2 : 1; m.stride = th ? 37 : 17; m.ops = "wtSG"; m.epi = "c"; break;
	case 10: m.cfgs = nogc255; m.alts = CR | FL; m.ndev = 2; m.nested = 2; m.depth = th ? 2 : 1; m.stride = th ? 37 : 17; m.ops = "wtSGYCF"; m.epi = "c"; break;
	case 11: m.cfgs = nogc255; m.alts = FL; m.ndev = 1; m.depth = 2; m.stride = th ? 2 : 11; m.ops = "wtYSGCQF"; m.epi = "s"; want_c11 = E.lenient = true; break;
	case 12: if (big) { m.cfgs = C({"p512b4gc1x60", "p512b4gc1x100", "p256b2gc2x150", "p256b2gc3x260", "p512b4badx48", "p256b2badx70", "p512b4badfront"}); m.depth = 1; m.stride = th ? 1 : 23; m.ops = "WTYSG"; m.wls = {1, 3, 6, 8}; break; }
		m.depth = 3; m.stride = th ? 1 : 11; m.ops = "WTYSGCFM"; m.wls = {1, 3, 6, 0}; break;
	case 13: m.depth = th ? 2 : 1; m.stride = th ? 3 : 2; m.epi = "g"; m.ops = "WTYSGCF"; break;
	case 14: case 15: m.cfgs = nogc255; m.nested = 2; m.alts = RD; m.ndev = th ? 2 : 1; m.depth = th ? 2 : 1; m.stride = th ? 41 : 5;
		if (big) { m.alts = RD | FL; m.ndev = 2; m.depth = 1; m.stride = th ? 11 : 61; }          // a failing block and a read error
		 m.ops = "wtySGCFPVN"; m.epi = "x"; break;
	case 16: if (big) { m.cfgs = C({"p512b16big", "p256b2big"}); m.depth = 1; m.stride = th ? 7 : 97; m.wls = th ? std::vector<int>{0, 1, 2, 3, 4, 5, 6} : std::vector<int>{0, 6}; m.ops = "WTYSGCQ"; want_c16 = true; break; }
		m.depth = 2; m.stride = th ? 1 : 7; m.alts = CR; m.ndev = th ? 1 : 0; m.ops = "WTYSGCQR"; want_c16 = true; break;
	case 22: m.ops = "WTYSGCFMQ"; m.depth = 2; m.stride = th ? 3 : 17; m.alts = CR; m.ndev = 1; m.cfgs = nogc255; m.epi = "w"; want_c22 = true; break;
	case 24: m.cfgs = nogc255; m.depth = 1; m.stride = th ? 1 : 5; m.ops = "RQ"; want_rdmount = true; break;
	case 25: want_stack = true; m.ndev = 1; m.nested = 1; m.depth = 1; m.ops = "wtYSGCQFP"; m.alts = CR | FL | RD; m.epi = "s";
		if (big) { m.cfgs = C({"p8kb64", "p16kb8"}); m.wls = {0, 7}; m.stride = th ? 37 : 173; }
		else { m.cfgs = nogc255; m.stride = th ? 3 : 29; }
		break;
	case 26: wanted = T(26) | T(1) | T(2) | T(3) | T(6); profile = 1; m.cfgs = C({"p512b4", "p2kb16", "p512b4roomy", "p256b2"}); m.ops = "WTYGQ"; m.depth = 2; m.stride = th ? 2 : 9; wide_alphabet = true; m.wls = {0, 1, 5}; break;
	case 27: m.alts = FL | RD; m.cfgs = nogc255; m.ndev = 1; m.depth = 1; m.stride = th ? 2 : 9; m.ops = "WTYSGCQRVN"; m.epi = ""; want_null = want_rdmount = true; break;
	}
}
