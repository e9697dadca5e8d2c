// Replays behaviours of Calendar.tla / TimeText.tla on the real Time class.
#include "vp.h"
#include "Exception.h"
#include "TimeObj.h"
using namespace vp;

static std::vector<long long> split(double d) {
	double D = floor(d / 86400.0), r = d - D * 86400.0, S = floor(r), U = floor((r - S) * 1.0e6 + 0.5);
	std::vector<long long> v; v.push_back((long long) D); v.push_back((long long) S); v.push_back((long long) U); return v;
}
// observed fields through the public interface; months and days counted from 0
static std::vector<int> obs(const Time & t) {
	int o = (t.GetTimeType() == Time::TypeFixed) ? 1 : 0;
	std::vector<int> v; v.push_back(t.GetYear()); v.push_back(t.GetMonth() - o); v.push_back(t.GetDay() - o);
	v.push_back(t.GetSecond()); v.push_back(t.GetMicroSecond()); return v;
}
static std::string chars(const std::string & f) {
	std::string r = "[";
	for (size_t i = 0; i < f.size(); i++) { if (i) r += ","; r += "\""; if (f[i] == '"' || f[i] == '\\') r += '\\'; r += f[i]; r += "\""; }
	return r + "]";
}
int main(int argc, char ** argv) {
	std::vector<std::string> in = readlines(argv[1]);
	out = fopen(argv[2], "w");
	Time::CalendarType cal = Time::CalendarNoLeap;
	Time t(cal);
	for (size_t k = 0; k < in.size(); k++) {
		std::vector<std::string> w = words(in[k]);
		if (w.size() == 0) continue;
		if (w[0] == "scenario") { scn = atoi(w[1].c_str()); continue; }
		if (w[0] == "end") { Ev("end").emit(); break; }
		if (w[0] == "cal") {
			cal = (w[1] == "standard") ? Time::CalendarStandard : Time::CalendarNoLeap;
			t = Time(cal);
			Ev("cal").str("cal", w[1]).emit(); continue;
		}
		std::vector<int> a;
		if (w[0] != "parse" && w[0] != "long") for (size_t j = 1; j < w.size(); j++) a.push_back(atoi(w[j].c_str()));
		Ev e(w[0].c_str());
		if (w[0] != "parse" && w[0] != "long") e.arr("a", a);
		bool exc = false;
		try {
			if (w[0] == "set" || w[0] == "make") t = Time(a[0], a[1], a[2], a[3], a[4], cal, Time::TypeFixed);
			else if (w[0] == "addY") t.AddYears(a[0]);
			else if (w[0] == "addM") t.AddMonths(a[0]);
			else if (w[0] == "addD") t.AddDays(a[0]);
			else if (w[0] == "addS") { if (k % 2) t.AddSeconds(a[0]); else t += a[0]; }
			else if (w[0] == "addT") {
				Time d(a[0], a[1], a[2], a[3], a[4], cal, Time::TypeDelta);
				e.arr("delta", obs(d));
				if (k % 2) t.AddTime(d); else t += d;
			}
			else if (w[0] == "cmp") {
				Time o(a[0], a[1], a[2], a[3], a[4], cal, Time::TypeFixed);
				e.b("lt", t < o).b("gt", t > o).b("le", t <= o).b("ge", t >= o).b("eq", t == o);
				if (cal == Time::CalendarNoLeap) e.arr("diff", split(t - o)).arr("secs", split(t.GetSeconds()));
			}
			else if (w[0] == "text") {
				// each printed form read back (microseconds dropped by the forms without them)
				const char * n[] = {"long", "full", "short", "date", "longread"};
				std::string f[] = {t.ToLongString(), t.ToString(), t.ToShortString(), t.ToDateString(), t.ToLongString()};
				for (int q = 0; q < 5; q++) {
					e.raw((std::string(n[q]) + "S").c_str(), chars(f[q]));
					Time r(cal);
					try {
						if (q == 0 || q == 4) { r.FromLongString(f[q]); } else r.FromFormattedString(f[q]);
						e.arr(n[q], obs(r)).b((std::string(n[q]) + "F").c_str(), r.GetTimeType() == Time::TypeFixed);
					} catch (Exception & x) { e.raw(n[q], "[]").b((std::string(n[q]) + "F").c_str(), false); }
				}
			}
			else if (w[0] == "dur") {
				Time d(a[0], a[1], a[2], a[3], a[4], cal, Time::TypeDelta);
				std::string f = d.ToFreeString();
				e.arr("d", obs(d)).raw("S", chars(f));
				Time r(cal, Time::TypeDelta);
				r.FromFormattedString(f);
				e.arr("back", obs(r)).b("delta", r.GetTimeType() == Time::TypeDelta);
			}
			else if (w[0] == "parse" || w[0] == "long") {
				std::string s = unhex(w[1]);
				e.raw("S", chars(s));
				Time r(cal, Time::TypeFixed);
				bool ok = true;
				try { if (w[0] == "long") r.FromLongString(s); else r.FromFormattedString(s); } catch (Exception & x) { ok = false; }
				e.b("ok", ok).b("fixed", r.GetTimeType() == Time::TypeFixed).arr("p", ok ? obs(r) : std::vector<int>(5, 0));
			}
		} catch (Exception & x) { exc = true; }
		e.b("exc", exc).arr("r", obs(t)).emit();
	}
	fclose(out);
	return 0;
}
