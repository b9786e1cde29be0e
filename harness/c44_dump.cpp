// C44: dump() writes exactly the registered graph, whatever the phase of the pipeline, and changes nothing.  What was written is read back as DOT and compared statement by statement.
#include "h.h"
#include "ostream.h"
alignas(16) char h_cout[1024] asm("_ZSt4cout");
struct El { GElementPtr e; std::string name; int loop, kind, parent; bool hidden; }; static El el44[MAXE]; static int n44;                   // hidden: below a mutable group
static bool dep44[MAXE][MAXE];
struct St { std::string a, b, label, ltail, lhead; int in; bool edge, labelled; }; static St st44[128]; static int nst44; struct Sub { std::string id, label; int in; }; static Sub sub44[16]; static int nsub44;
static unsigned at44; static std::string tok44;
static int next44() {                                                                                    // 0 end, 'i' identifier or string, '>' arrow, or the character
  for (;;) { char c = at44 < h_outn ? h_out[at44] : 0; if (!c) return 0; at44++; if (c == ' ' || c == '\n' || c == '\t' || c == ';' || c == ',') continue;
    if (c == '-' && h_out[at44] == '>') { at44++; return '>'; } if (c == '[' || c == ']' || c == '{' || c == '}' || c == '=') return c; tok44.clear();
    if (c == '"') { while (at44 < h_outn && h_out[at44] != '"') tok44 += h_out[at44++]; at44++; return 'i'; }
    tok44 += c; while (at44 < h_outn) { c = h_out[at44]; if (c == ' ' || c == '\n' || c == '\t' || c == ';' || c == ',' || c == '[' || c == ']' || c == '{' || c == '}' || c == '=' || c == '"' || (c == '-' && h_out[at44 + 1] == '>')) break; tok44 += c; at44++; } return 'i'; }
}
static int peek44() { unsigned a = at44; std::string t = tok44; int k = next44(); at44 = a; tok44 = t; return k; }
static void attrs44(St& s) {
  while (peek44() == '[') { next44(); for (;;) { int k = next44(); if (k == ']') break; SYM_ASSERT(k == 'i', "attributes are well-formed"); std::string key = tok44; k = next44(); SYM_ASSERT(k == '=', "attributes are well-formed"); k = next44(); SYM_ASSERT(k == 'i', "attributes are well-formed");
      if (key == "label") { s.label = tok44; s.labelled = true; } if (key == "ltail") s.ltail = tok44; if (key == "lhead") s.lhead = tok44; } }
}
static void body44(int in) {
  for (;;) { int k = next44(); if (k == '}') return; SYM_ASSERT(k == 'i', "statements are well-formed and braces are balanced"); std::string id = tok44;
    if (id == "subgraph") { k = next44(); SYM_ASSERT(k == 'i' && nsub44 < 16, "a subgraph has a name"); int me = nsub44++; sub44[me] = Sub{tok44, "", in}; k = next44(); SYM_ASSERT(k == '{', "a subgraph has a body"); body44(me); continue; }
    k = peek44(); if (k == '=') { next44(); k = next44(); SYM_ASSERT(k == 'i', "assignments are well-formed"); if (id == "label" && in >= 0) sub44[in].label = tok44; continue; }
    St s; s.a = id; s.in = in; s.edge = s.labelled = false; if (k == '>') { next44(); k = next44(); SYM_ASSERT(k == 'i', "edges are well-formed"); s.b = tok44; s.edge = true; } attrs44(s); SYM_ASSERT(nst44 < 128, "no more statements than elements and dependencies"); st44[nst44++] = s; }
}
static std::string id44(int i) { return "p" + h_hex(el44[i].e); }
static bool grp44(int i) { return el44[i].kind != K_NODE && el44[i].kind != K_MUT; }
static int subOf44(int i) { if (i < 0) return -1; for (int k = 0; k < nsub44; k++) if (sub44[k].id == "cluster_" + id44(i)) return k; return -2; }
static bool starts44(const std::string& s, const std::string& want, bool perf) { if (s == want) return true; if (!perf || s.size() <= want.size()) return false; for (size_t i = 0; i < want.size(); i++) if (s[i] != want[i]) return false; return s[want.size()] == '\n'; }
static void edge44(bool* seen, int a, int b, const std::string& label) {
  int n = 0; for (int k = 0; k < nst44; k++) { St& s = st44[k]; if (seen[k] || !s.edge || s.a != id44(a) || s.b != id44(b) || s.label != label) continue; seen[k] = true; n++; if (a != b && el44[a].kind != K_MUT) SYM_ASSERT(s.ltail == (grp44(a) ? "cluster_" + id44(a) : std::string()), "an edge starts at its element or group"); if (a != b && el44[b].kind != K_MUT) SYM_ASSERT(s.lhead == (grp44(b) ? "cluster_" + id44(b) : std::string()), "and ends at its element or group"); break; }
  SYM_ASSERT(n == 1, "every dependency, order, branch and loop is drawn");
}
static void check44(GPipelinePtr p, bool perf) {
  nst44 = nsub44 = 0; at44 = 0; int k = next44(); SYM_ASSERT(k == 'i' && tok44 == "digraph", "a directed graph is written"); k = next44(); SYM_ASSERT(k == 'i', "with a name"); k = next44(); SYM_ASSERT(k == '{', "and a body"); body44(-1); if (!perf) { k = next44(); SYM_ASSERT(k == 0, "and nothing after it"); }
  int groups = 0, leaves = 0; bool seen[128] = {};
  for (int i = 0; i < n44; i++) { if (el44[i].hidden) continue; std::string id = id44(i), nm = !el44[i].name.empty() ? el44[i].name : el44[i].e->getName().empty() ? id : el44[i].e->getName(); int stated = 0, home = subOf44(el44[i].parent), me = subOf44(i);
    for (k = 0; k < nst44; k++) { St& s = st44[k]; if (s.edge || s.a != id) continue; seen[k] = true; if (s.labelled) { stated++; SYM_ASSERT(s.in == home, "an element is drawn inside its group"); SYM_ASSERT(starts44(s.label, nm, perf), "with its name"); } else SYM_ASSERT(grp44(i) && s.in == me, "only a group has a second point, inside its frame"); }
    SYM_ASSERT(stated == 1, "every element is drawn once"); if (!grp44(i)) { leaves++; continue; } groups++; int frames = 0; for (k = 0; k < nsub44; k++) if (sub44[k].id == "cluster_" + id) { frames++; SYM_ASSERT(sub44[k].in == home, "a group is nested in its group"); SYM_ASSERT(starts44(sub44[k].label, el44[i].loop > 1 ? nm + "(loop=" + std::to_string(el44[i].loop) + ")" : nm, perf), "with its name and loop count"); } SYM_ASSERT(frames == 1, "every group has a frame"); }
  SYM_ASSERT(nsub44 == groups, "and nothing else has");
  for (int i = 0; i < n44; i++) { if (el44[i].hidden) continue; for (int j = 0; j < n44; j++) if (dep44[i][j] && !el44[j].hidden) edge44(seen, i, j, ""); if (el44[i].kind == K_NODE && el44[i].loop > 1) edge44(seen, i, i, std::to_string(el44[i].loop));
    int prev = -1, idx = 0; for (int j = 0; j < n44; j++) if (el44[j].parent == i && !el44[j].hidden) { if (el44[i].kind == K_CLUSTER && prev >= 0) edge44(seen, prev, j, ""); if (el44[i].kind == K_COND || el44[i].kind == K_MULTIS || el44[i].kind == K_MULTIP) edge44(seen, i, j, std::to_string(idx)); prev = j; idx++; } }
  for (k = 0; k < nst44; k++) { bool hid = false; for (int i = 0; i < n44; i++) if ((el44[i].hidden || el44[i].kind == K_MUT) && st44[k].a == id44(i)) hid = true; SYM_ASSERT(seen[k] || hid, "nothing is drawn that is not there"); }
}
static void dump44(GPipelinePtr p) { h_outn = 0; CStatus s = p->dump(h_stream()); SYM_ASSERT(s.isOK(), "the pipeline can be drawn"); check44(p, false); }
static std::string nm44(int i) { int k = sym_opt("names", 3) > 1 ? sym_pick("name", sym_opt("names", 3)) : 0; return k == 0 ? std::string("e") + (char)('0' + i) : k == 1 ? std::string() : std::string("a b"); }
static int add44(GElementPtr e, const std::string& nm, int loop, int kind, int parent) { el44[n44] = El{e, nm, loop, kind, parent, false}; return n44++; }
struct Sg44 : Nd {};
extern "C" void harness_main() {
  const int n = sym_opt("nodes", 2), grp = sym_opt("group", 0), inner = sym_opt("inner", 0), ad = sym_opt("adapters", 0), eng = sym_opt("engine", 0); CStatus s; GPipelinePtr p = h_pipe(3); p->setGEngineType(h_engine(eng)); h_stream(h_cout); GElementPtr e[MAXE] = {}; h_wait = 1;
  for (int j = 0; j < n; j++) { GElementPtrSet d; for (int i = 0; i < j; i++) if (sym_bool("edge")) { d.insert(e[i]); dep44[i][j] = true; } int k = ad ? sym_pick("type", 5) : 0; std::string nm = j || k == 4 ? std::string("e") + (char)(48 + j) : nm44(j); const int ls[] = {1, 2, 13}; int loop = k == 1 || k == 2 ? 1 : ls[sym_pick("loop", j ? 2 : 3)];
    if (k == 1) s += p->registerGElement<GFence>(&e[j], d, nm, loop); else if (k == 2) s += p->registerGElement<GCoordinator<2>>(&e[j], d, nm, loop); else if (k == 3) s += p->registerGElement<GFunction>(&e[j], d, nm, (CSize)loop); else if (k == 4) s += p->registerGElement<GSingleton<Sg44>>(&e[j], d, nm, loop); else s += p->registerGElement<Nd>(&e[j], d, nm, loop);
    add44(e[j], nm, loop, K_NODE, -1); }
  int gi = -1;
  if (grp) { std::string gn = nm44(8), in = inner ? nm44(7) : std::string("in"); int a = add44(p->createGNode<Nm>(GElementPtrSet(), "x", 1), "x", 1, K_NODE, -2), b, c = -1, d = -1;                       // a group of two: a node and a node or a group of two nodes
    if (inner) { c = add44(p->createGNode<Nm>(GElementPtrSet(), "", 1), "", 1, K_NODE, -2); d = add44(p->createGNode<Nm>(GElementPtrSet(), "y", 1), "y", 1, K_NODE, -2); if (inner == K_REGION && sym_bool("inner edge")) { s += el44[d].e->addDependGElements({el44[c].e}); dep44[c][d] = true; } GElementPtr g2 = h_wrap(p, inner, {el44[c].e, el44[d].e}, in.c_str()); b = add44(g2, in, 1, inner, -2); el44[c].parent = el44[d].parent = b; }
    else b = add44(p->createGNode<Nm>(GElementPtrSet(), in, grp == K_SOME ? 1 : 2), in, grp == K_SOME ? 1 : 2, K_NODE, -2);
    if (grp == K_REGION && sym_bool("region edge")) { s += el44[b].e->addDependGElements({el44[a].e}); dep44[a][b] = true; }
    int t = -1; if (sym_opt("kids", 2) > 2) { t = add44(p->createGNode<Nm>(GElementPtrSet(), "t", 1), "t", 1, K_NODE, -2); if (grp == K_REGION) for (int q : {a, b}) if (sym_bool("third edge")) { s += el44[t].e->addDependGElements({el44[q].e}); dep44[q][t] = true; } }
    std::vector<GElementPtr> kids = {el44[a].e, el44[b].e}; if (t >= 0) kids.push_back(el44[t].e); GElementPtr g = h_wrap(p, grp, kids, gn.c_str()); int loop = grp == K_SOME ? 1 : 1 + sym_pick("loop", 2); GElementPtrSet ds; gi = n44; for (int i = 0; i < n; i++) if (sym_bool("edge")) { ds.insert(e[i]); dep44[i][gi] = true; } s += p->registerGGroup(&g, ds, gn, loop); add44(g, gn, loop, grp, -1); el44[a].parent = el44[b].parent = gi; if (t >= 0) el44[t].parent = gi;
    for (int i = 0; i < n44; i++) { for (int q = el44[i].parent; q >= 0; q = el44[q].parent) if (el44[q].kind == K_MUT) el44[i].hidden = true; h_match[i] = true; }
    if (sym_opt("after", 1)) { std::string nm = "after"; GElementPtr z = nullptr; GElementPtrSet zd = {g}; if (n && sym_bool("also")) { zd.insert(e[0]); dep44[0][n44] = true; } s += p->registerGElement<Nd>(&z, zd, nm, 1); dep44[gi][n44] = true; add44(z, nm, 1, K_NODE, -1); } }
  SYM_ASSERT(s.isOK(), "registration succeeds"); __sym_sched(1); __sym_reach("drawn"); dump44(p); bool more = sym_opt("phases", 1) && !ad; int phase = more ? (int)sym_pick("phase", 6) : 0;
  if (phase == 1) { s = p->init(); SYM_ASSERT(s.isOK(), "the pipeline is initialised"); dump44(p); s = p->run(); SYM_ASSERT(s.isOK(), "and runs"); dump44(p); s = p->destroy(); SYM_ASSERT(s.isOK(), "and is destroyed"); dump44(p); }
  else if (phase == 2) { s = p->process(2); SYM_ASSERT(s.isOK(), "the pipeline runs"); dump44(p); }
  else if (phase == 3 && n > 1) { int a = sym_pick("from", n - 1), b = n - 1; if (dep44[a][b]) { s = e[b]->removeDepend(e[a]); dep44[a][b] = false; } else { s = e[b]->addDependGElements({e[a]}); dep44[a][b] = true; } SYM_ASSERT(s.isOK(), "a dependency is changed"); dump44(p); }
  else if (phase == 4) { GElementPtr z = nullptr; s = p->registerGElement<Nd>(&z, {e[0]}, "late", 3); SYM_ASSERT(s.isOK(), "an element is added later"); dep44[0][n44] = true; add44(z, "late", 3, K_NODE, -1); dump44(p); }
  else if (phase == 5) { h_outn = 0; s = p->perf(h_stream()); SYM_ASSERT(s.isOK(), "perf runs the pipeline"); check44(p, true); dump44(p); }
  if (!ad && sym_opt("phases", 1)) { h_reset(); s = p->process(); SYM_ASSERT(s.isOK(), "the pipeline runs as it did before it was drawn"); for (int i = 0; i < n; i++) SYM_ASSERT(h_runs[((Nd*)e[i])->id] == el44[i].loop, "every element as often as before"); if (gi >= 0 && grp != K_SOME && grp != K_COND && !inner) SYM_ASSERT(h_runs[((Nd*)el44[n].e)->id] == el44[gi].loop, "and what is in its groups"); }
  __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
