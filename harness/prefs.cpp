// Reads files made by Preferences.tla with the real Preferences class and asks for every kind of value.
#include "vp.h"
#include "Exception.h"
#include "Preferences.h"
#include <unistd.h>
using namespace vp;
static std::string cq(const std::string & v) {
	std::string q = "[";
	for (size_t n = 0; n < v.size(); n++) { q += n ? ",\"" : "\""; if (v[n] == '\n') q += "\\n"; else { if (v[n] == '"' || v[n] == '\\') q += '\\'; if (v[n] >= 32 && v[n] < 127) q += v[n]; else q += "?"; } q += "\""; }
	return q + "]";
}
static long long milli(double d) { if (!(fabs(d) < 2.0e6)) return -1; return (long long) floor(d * 1000.0 + 0.5); }
int main(int argc, char ** argv) {
	std::vector<std::string> in = readlines(argv[1]);
	out = fopen(argv[2], "w");
	std::string f = std::string(argv[2]) + ".pref";
	Preferences * p = new Preferences();
	const char * keys[] = {"a", "b", "ab", "key", "KEY", "x y", "", "1", "aa", "A", "#a"};
	for (size_t k = 0; k < in.size(); k++) {
		std::vector<std::string> w = words(in[k]);
		if (w[0] == "end") { Ev("end").emit(); break; }
		if (w[0] == "scenario") { scn = atoi(w[1].c_str()); delete p; p = new Preferences(); continue; }
		if (w[0] == "missing") {
			bool ok = true; try { Preferences q((f + ".none").c_str()); } catch (Exception & x) { ok = false; }
			Ev("missing").b("ok", ok).emit(); continue;
		}
		std::string t = unhex(w[1]);
		{ FILE * h = fopen(f.c_str(), "wb"); fwrite(t.data(), 1, t.size(), h); fclose(h); }
		bool ok = true;
		alarm(20);
		try {
			if (k % 3 == 0) { Preferences * q = new Preferences(f.c_str()); delete p; p = q; } else p->ParsePreferences(f.c_str());
		} catch (Exception & x) { ok = false; }
		alarm(0);
		Ev("file").raw("S", cq(t)).b("ok", ok).emit();
		if (!ok) continue;
		int nk = (w.size() > 2) ? 11 : 6;
		for (int q = 0; q < nk; q++) {
			const char * n = keys[q];
			Ev e("get"); e.raw("key", cq(n));
			int thrown = 0, flags = 0, found = 0, err;
			std::string s, s2, s3, s4, low, low2; long long v = 0, v2 = 0, un = 0, un2 = 0, m = 0, m2 = 0;
			try { s = p->GetPreferenceAsString(n); } catch (Exception & x) { thrown++; }
			try { s3 = p->GetPreferenceAsCharArray(n); } catch (Exception & x) { thrown++; }
			try { low = p->GetPreferenceAsString_NoCase(n); } catch (Exception & x) { thrown++; }
			try { v = p->GetPreferenceAsInt(n); } catch (Exception & x) { thrown++; }
			try { un = p->GetPreferenceAsUInt(n); } catch (Exception & x) { thrown++; }
			try { m = milli(p->GetPreferenceAsDouble(n)); } catch (Exception & x) { thrown++; }
			err = 7; s2 = p->GetPreferenceAsString_NoThrow(n, &err); flags += err;
			err = 7; low2 = p->GetPreferenceAsString_NoCase_NoThrow(n, &err); flags += err;
			err = 7; v2 = p->GetPreferenceAsInt_NoThrow(n, &err); flags += err;
			err = 7; un2 = p->GetPreferenceAsUInt_NoThrow(n, &err); flags += err;
			err = 7; m2 = milli(p->GetPreferenceAsDouble_NoThrow(n, &err)); flags += err;
			const char * c = p->GetPreferenceAsCharArray_NoThrow(n); if (c) s4 = c;
			if (s2 != "" || low2 != "" || v2 || un2 || m2) found = 1;
			e.i("thrown", thrown).i("flags", flags).i("found", found).b("null", c == NULL).raw("s", cq(s)).raw("s2", cq(s2)).raw("s3", cq(s3)).raw("s4", cq(s4)).raw("low", cq(low)).raw("low2", cq(low2));
			e.i("n", v).i("n2", v2).i("un", (int) un).i("un2", (int) un2).i("m", m).i("m2", m2).emit();
		}
	}
	unlink(f.c_str());
	fclose(out);
	return 0;
}
