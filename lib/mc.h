// Minimal explicit-state / stateless exhaustive explorer for C++ harnesses.
//
// A harness registers scenarios. A scenario body is a deterministic function of the values that
// mc::choose(n) returns. The explorer runs the body once per complete choice sequence, in
// lexicographic order, until the whole choice tree is covered (never a sample). A body may call
// mc::visited(canonical_state, depth_left) to prune: the explorer cuts the execution if the same
// canonical state was already expanded with at least as much remaining depth.
//
// Violations (mc::fail, ASan aborts, signals, hangs) are identified by the choice sequence, which
// lives in a shared mapping so that the runner can read it after a crash and replay it.
#pragma once

#include <memory>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc
{
	struct Abandon {};	// thrown to cut an execution (pruned or out of shard)

	struct Shared		// layout known to bin/check.py
	{
		uint64_t heartbeat;
		uint64_t length;
		int32_t path[4096];
	};

	struct Frame { int chosen, n; };

	struct Scenario
	{
		const char * name;
		std::function<void()> body;
		bool quick, thorough;	// in which tiers it runs
		int shards;				// parallel pieces
		bool bfs = false;
	};

	struct Engine
	{
		std::vector<Scenario> scenarios;
		std::vector<Frame> path;
		size_t pos = 0;
		bool replay = false;
		bool thorough = false;
		int shard = 0, nshards = 1;
		static constexpr int shardDepth = 3;
		Shared * shared = nullptr;
		Shared local{};

		uint64_t states = 0, transitions = 0, executions = 0, pruned = 0;
		uint64_t checks = 0;
		uint64_t evals = 0;
		std::unordered_map<std::string, int> seen;
		std::unordered_set<std::string> outcomes;
		std::vector<std::string> samples;
		std::string notes;
		bool wantNotes = false;
		bool bfs = false, bfsChildSeen = false;
		size_t bfsPrefix = 0, bfsDepth = 0;
		std::vector<std::vector<int>> frontier, nextFrontier;
		size_t freshFrom = 0, forced = 0;
		std::vector<std::string> knownHit;
		std::unordered_set<std::string> knownSet;
		// A changed library may have far more states than this one. The exploration then stops at
		// a deadline and says so: it holds on what was explored, and is not called exhaustive.
		time_t deadline = 0;
		bool truncated = false;
		bool late() { if (deadline && !truncated) truncated = time(nullptr) > deadline; return truncated; }
	};

	inline Engine & engine() { static Engine e; return e; }
	inline bool thorough() { return engine().thorough; }

	// Bound helper: value for the quick and for the thorough tier
	inline int bound(int quick, int thoroughValue) { return engine().thorough ? thoroughValue : quick; }

	inline void note(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
	inline void note(const char * fmt, ...)
	{
		Engine & e = engine();
		if (!e.wantNotes) return;
		char buf[1024];
		va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
		if (e.replay) { printf("  step: %s\n", buf); fflush(stdout); }
		if (e.notes.size() < 600) { if (!e.notes.empty()) e.notes += "; "; e.notes += buf; }
	}

	[[noreturn]] inline void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
	[[noreturn]] inline void fail(const char * fmt, ...)
	{
		fflush(stdout);
		printf("MC-FAIL ");
		va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
		printf("\n");
		fflush(stdout);
		_exit(3);
	}

	#define MC_CHECK(cond, ...) do { ++mc::engine().checks; if (!(cond)) mc::fail(__VA_ARGS__); } while (0)

	// A choice point with n alternatives
	inline int choose(int n)
	{
		Engine & e = engine();
		if (n <= 0) mc::fail("internal: choose(%d)", n);
		if (e.pos < e.path.size())
		{
			Frame & f = e.path[e.pos];
			if (f.n == 0 && f.chosen < n) f.n = n;	// replayed path
			if (f.n != n) mc::fail("internal: nondeterministic replay at choice %zu (%d != %d)", e.pos, f.n, n);
		}
		else
		{
			e.path.push_back({0, n});
		}
		int c = e.path[e.pos].chosen;
		if (e.pos >= sizeof e.shared->path / sizeof *e.shared->path) { e.truncated = true; throw Abandon{}; }
		if (e.pos >= e.freshFrom) { ++e.transitions; }
		e.shared->path[e.pos] = c;
		e.shared->length = e.pos + 1;
		++e.shared->heartbeat;
		++e.pos;
		if (e.nshards > 1 && !e.replay && e.pos == (size_t)Engine::shardDepth)
		{
			uint64_t h = 1469598103934665603ull;
			for (int i = 0; i < Engine::shardDepth; ++i) h = (h ^ (uint64_t)(e.path[i].chosen + 1)) * 1099511628211ull;
			h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
			if ((int)(h % e.nshards) != e.shard) throw Abandon{};
		}
		return c;
	}

	// Choice from an explicit list
	// A power of two among 2^lo .. 2^(lo + n - 1), and 2^16, where 16-bit counts end
	inline int exponent(int lo, int n, bool wide = true) { int k = choose(n + (wide && lo + n - 1 < 16)); return k < n ? lo + k : 16; }
	template<typename T, size_t N> T pick(const T (&alts)[N]) { return alts[choose((int)N)]; }

	// Keep the watchdog quiet in long loops without choices, and count work
	inline void tick(uint64_t n = 1) { Engine & e = engine(); ++e.shared->heartbeat; e.evals += n; }

	// Explicit-state pruning
	inline void visit(const std::string & canon, int depthLeft)
	{
		Engine & e = engine();
		if (e.replay) { if (e.pos >= e.path.size()) throw Abandon{}; return; }
		if (e.bfs)
		{
			// Breadth first: the execution re-creates a known state (bfsPrefix choices), takes one
			// step, and ends in the resulting state
			if (e.pos < e.bfsPrefix) return;
			if (e.pos == e.bfsPrefix)
			{
				if (e.seen.empty()) { e.seen.emplace(canon, 0); ++e.states; }
				return;
			}
			++e.executions;
			if (e.seen.emplace(canon, 0).second)
			{
				++e.states;
				std::vector<int> p;
				for (size_t i = 0; i < e.pos; ++i) p.push_back(e.path[i].chosen);
				if (depthLeft != 0) e.nextFrontier.push_back(p);
			}
			else ++e.pruned;
			throw Abandon{};
		}
		if (e.pos < e.forced) return;	// a prefix being re-executed: this very subtree expands it
		auto it = e.seen.find(canon);
		if (it == e.seen.end()) { e.seen.emplace(canon, depthLeft); ++e.states; return; }
		if (it->second < depthLeft) { it->second = depthLeft; return; }
		++e.pruned;
		throw Abandon{};
	}

	// Record an observed outcome class (non-vacuity)
	inline void outcome(const std::string & s) { Engine & e = engine(); if (e.outcomes.size() < 200000) e.outcomes.insert(s); }

	// Known finding: true if the id is listed in the committed known-findings file
	inline bool known(const std::string & id)
	{
		Engine & e = engine();
		if (!e.knownSet.count(id)) return false;
		for (auto & k : e.knownHit) if (k == id) return true;
		e.knownHit.push_back(id);
		return true;
	}

	inline std::string jsonEscape(const std::string & s)
	{
		std::string o;
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
			else o += (char)c;
		}
		return o;
	}

	// A scenario name made at run time
	inline const char * keep(const std::string & s) { static std::vector<std::unique_ptr<std::string>> all; all.emplace_back(new std::string(s)); return all.back()->c_str(); }
	inline void add(const char * name, bool quick, bool thorough, int shards, std::function<void()> body)
	{
		engine().scenarios.push_back({name, body, quick, thorough, shards});
	}
	inline void add(const char * name, int shards, std::function<void()> body) { add(name, true, true, shards, body); }

	// True if visit() will see this state for the first time: the place for checks too long for every transition
	inline bool unseen(const std::string & canon)
	{
		Engine & e = engine();
		return e.replay || (e.bfs ? e.pos >= e.bfsPrefix && !e.seen.count(canon) : e.pos >= e.forced);
	}

	// Breadth-first search to closure. The body must loop: visit(canon, 1); one step made of choices.
	// visit(canon, 0) marks a state that is not expanded further (bound reached).
	inline void addBfs(const char * name, bool quick, bool thorough, std::function<void()> body)
	{
		engine().scenarios.push_back({name, body, quick, thorough, 1, true});
	}
	inline void addBfs(const char * name, std::function<void()> body) { addBfs(name, true, true, body); }

	inline bool wantSample()
	{
		Engine & e = engine();
		uint64_t x = e.executions;
		return e.samples.size() < 8 && (x == 0 || x == 7 || x == 100 || x == 1500 || x == 20000 || x == 300000 || x == 4000000);
	}

	inline void exploreBfs(const Scenario & s)
	{
		Engine & e = engine();
		e.bfs = true;
		e.frontier.push_back({});
		while (!e.frontier.empty() && !e.late())
		{
			++e.bfsDepth;
			for (auto & prefix : e.frontier)
			{
				e.path.clear();
				for (int c : prefix) e.path.push_back({c, 0});
				e.bfsPrefix = prefix.size();
				e.freshFrom = e.bfsPrefix;
				for (;;)
				{
					e.pos = 0;
					e.forced = e.seen.empty() ? 0 : e.bfsPrefix + 1;
					e.notes.clear();
					e.wantNotes = wantSample();
					try { s.body(); ++e.executions; } catch (Abandon &) {}
					if (e.wantNotes && !e.notes.empty()) e.samples.push_back(e.notes);
					e.path.resize(e.pos);
					while (e.path.size() > e.bfsPrefix && e.path.back().chosen + 1 >= e.path.back().n) e.path.pop_back();
					if (e.path.size() <= e.bfsPrefix) break;
					++e.path.back().chosen;
					if (e.late()) break;
				}
				if (e.late()) break;
			}
			e.frontier.swap(e.nextFrontier);
			e.nextFrontier.clear();
		}
		e.bfs = false;
	}

	inline void explore(const Scenario & s)
	{
		Engine & e = engine();
		e.path.clear();
		e.freshFrom = 0;
		for (;;)
		{
			e.pos = 0;
			e.forced = e.path.size();
			e.notes.clear();
			e.wantNotes = wantSample();
			bool cut = false;
			try { s.body(); if (e.nshards == 1 || e.shard == 0 || e.pos >= (size_t)Engine::shardDepth) ++e.executions; } catch (Abandon &) { cut = true; }
			if (e.wantNotes && !cut && !e.notes.empty())
			{
				e.samples.push_back(e.notes);
			}
			e.path.resize(e.pos);		// body may have stopped before using its whole prefix
			while (!e.path.empty() && e.path.back().chosen + 1 >= e.path.back().n) e.path.pop_back();
			if (e.path.empty()) break;
			++e.path.back().chosen;
			e.freshFrom = e.path.size() - 1;
			if (e.late()) break;
		}
	}

	inline int main(int argc, char ** argv, void (*setup)())
	{
		Engine & e = engine();
		std::string scenario, out, replay, sharedPath; bool list = false;
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i];
			auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
			if (a == "--list") list = true;
			else if (a == "--thorough") e.thorough = true;
			else if (a == "--scenario") scenario = next();
			else if (a == "--shard") e.shard = atoi(next().c_str());
			else if (a == "--nshards") e.nshards = atoi(next().c_str());
			else if (a == "--out") out = next();
			else if (a == "--shared") sharedPath = next();
			else if (a == "--known") e.knownSet.insert(next());
			else if (a == "--replay") { replay = next(); e.replay = true; }
		}
		if (const char * d = getenv("MC_DEADLINE")) e.deadline = (time_t)atoll(d);
		e.shared = &e.local;
		if (!sharedPath.empty())
		{
			int fd = open(sharedPath.c_str(), O_RDWR | O_CREAT, 0644);
			if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("shared"); return 2; }
			e.shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			close(fd);
		}
		// The library's own CHECK messages go nowhere: they are diagnostics, not verdicts, and would
		// flood the log (sanitizers write to descriptor 2 directly)
		if (FILE * quiet = fopen("/dev/null", "w")) stderr = quiet;
		setup();
		if (list)
		{
			for (auto & s : e.scenarios) if (e.thorough ? s.thorough : s.quick) printf("%s %d\n", s.name, s.shards);
			return 0;
		}
		for (auto & s : e.scenarios)
		{
			if (scenario != s.name) continue;
			if (e.replay)
			{
				const char * p = replay.c_str();
				while (*p) { char * q; long v = strtol(p, &q, 10); if (q == p) { ++p; continue; } e.path.push_back({(int)v, 0}); p = q; }
				e.wantNotes = true;
				printf("replaying %s [%s]\n", s.name, replay.c_str()); fflush(stdout);
				try { s.body(); } catch (Abandon &) {}
				printf("replay finished without a violation\n");
				return 0;
			}
			if (s.bfs) exploreBfs(s); else explore(s);
			FILE * f = out.empty() ? stdout : fopen(out.c_str(), "w");
			if (!f) return 2;
			fprintf(f, "{\"scenario\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"pruned\":%llu,\"checks\":%llu,\"evals\":%llu,\"outcomes\":%zu,\"samples\":[",
				s.name, (unsigned long long)e.executions, (unsigned long long)e.transitions,
				(unsigned long long)(e.seen.empty() ? e.transitions + 1 : e.states), (unsigned long long)e.pruned,
				(unsigned long long)e.checks, (unsigned long long)e.evals, e.outcomes.size());
			for (size_t i = 0; i < e.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEscape(e.samples[i]).c_str());
			fprintf(f, "],\"known\":[");
			for (size_t i = 0; i < e.knownHit.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEscape(e.knownHit[i]).c_str());
			fprintf(f, "],\"truncated\":%s}\n", e.truncated ? "true" : "false");
			if (f != stdout) fclose(f);
			return 0;
		}
		fprintf(stderr, "unknown scenario %s\n", scenario.c_str());
		return 2;
	}
}

#define MC_MAIN(setup) int main(int argc, char ** argv) { return mc::main(argc, argv, setup); }

namespace mc
{
	// True if the current position lies beyond the re-executed prefix: oracle comparisons that
	// already succeeded for a prefix need not be repeated.
	inline bool fresh() { Engine & e = engine(); return e.replay || e.pos >= e.forced; }
}
