// CONF {"secs": 15, "ldflags": ["-ldl"]}
#include "multi.h"
#include <typeindex>
template <class N> static std::type_index tid(N& n) { return std::type_index(typeid(n)); }
static void tree(AW& w, bool threaded) { // placement of every node and sharing
    set<void*> seen; map<pair<int, int>, set<ThtsDNode*>> byid; map<ThtsDNode*, int> in; vector<ThtsCNode*> cs;
    walk(*w.root, seen, [&](ThtsDNode& d) { CHECK(tid(d) == tid(*w.root), "a decision node of another algorithm was created");
        for (auto& p : d.children) { ThtsCNode& c = *p.second; CHECK(c.action->equals_itfc(*p.first), "chance node filed under another action"); CHECK(c.state->equals_itfc(*d.state) && c.decision_depth == d.decision_depth && c.decision_timestep == d.decision_timestep && c.parent.lock().get() == &d && c.thts_manager == w.m, "chance node does not carry its parent's state, depth, timestep"); CHECK(sid(*c.state) < w.env->n && aid(*p.first) < w.env->na[sid(*c.state)], "child of an illegal action"); CHECK(d.has_child_node_itfc(mkA(aid(*p.first))) && d.get_child_node_itfc(mkA(aid(*p.first))).get() == &c, "lookup by an equal action fails"); } },
      [&](ThtsCNode& c) { cs.push_back(&c); for (auto& p : c.children) { ThtsDNode& d = *p.second; byid[{c.decision_timestep, sid(*p.first)}].insert(&d); in[&d]++; CHECK(sid(*d.state) == sid(*p.first), "decision node carries another state"); CHECK(d.decision_depth == c.decision_depth + 1 && d.decision_timestep == c.decision_timestep + 1, "decision node depth/timestep is not one larger"); auto par = d.parent.lock(); CHECK(par != nullptr, "decision node has no parent"); if (!w.m->use_transposition_table) CHECK(par.get() == &c, "decision node does not point to its parent"); else CHECK(par->decision_timestep == c.decision_timestep && par->children.count(p.first) && par->children.at(p.first).get() == &d, "shared decision node points to a node that is not its parent");
          CHECK(c.get_child_node_itfc(mkS(sid(*p.first))).get() == &d, "lookup by an equal observation fails"); } });
    for (auto& p : byid) if (w.m->use_transposition_table) CHECK(p.second.size() == 1, "%zu decision nodes for observation %d at timestep %d although a transposition table is used%s", p.second.size(), p.first.second, p.first.first, threaded ? " (concurrent search)" : "");
    if (!w.m->use_transposition_table) for (auto& p : in) CHECK(p.second == 1, "a decision node is shared without a transposition table");
    g_nontrivial += byid.size() > 2; }
int main(int argc, char** argv) { watchdog(60, "trials do not make progress"); return run_cases(argc, argv, [](R& r) {
    AW w = any_world(r, r.p(0.6), g_case < 8 ? g_case : -1); g_perturb = 0; string base = h::g_desc;
    // requests in any order on a growing tree
    vector<shared_ptr<ThtsDNode>> ds{w.root}; vector<shared_ptr<ThtsCNode>> cs;
    for (int i = 0; i < 40; i++) {
        if (cs.empty() || r.p()) { auto d = ds[r.i(0, (int)ds.size() - 1)]; if (d->is_leaf()) continue; A a = mkA(r.i(0, w.env->na[sid(*d->state)] - 1)); auto before = d->children; bool had = d->has_child_node_itfc(mkA(aid(*a))); CHECK(had == (before.count(a) > 0), "has_child disagrees with the children");
            auto c = d->create_child_node_itfc(a); CHECK(c && d->children.size() == before.size() + !had, "number of children grew by %zu, child was %s", d->children.size() - before.size(), had ? "present" : "absent"); CHECK(d->get_child_node_itfc(mkA(aid(*a))) == c && d->has_child_node_itfc(a) && d->create_child_node_itfc(mkA(aid(*a))) == c, "a later request returns another node"); CHECK(d->get_num_children() == (int)d->children.size(), "number of children"); for (auto& p : before) CHECK(d->children.at(p.first) == p.second, "another child was changed"); if (!had) cs.push_back(c); else CHECK(before.at(a) == c, "an existing child was replaced"); }
        else { auto c = cs[r.i(0, (int)cs.size() - 1)]; auto& t = w.env->tr[sid(*c->state)][aid(*c->action)]; auto it = t.begin(); std::advance(it, r.i(0, (int)t.size() - 1)); O o = mkS(it->first); auto before = c->children; bool had = c->has_child_node_itfc(o);
            auto d = c->create_child_node_itfc(o, mkS(it->first)); CHECK(d && c->children.size() == before.size() + !had, "number of children grew by %zu, child was %s", c->children.size() - before.size(), had ? "present" : "absent"); CHECK(c->get_child_node_itfc(mkS(it->first)) == d && c->create_child_node_itfc(mkS(it->first), mkS(it->first)) == d, "a later request returns another node"); CHECK(c->get_num_children() == (int)c->children.size(), "number of children"); for (auto& p : before) CHECK(c->children.at(p.first) == p.second, "another child was changed"); bool known = false; for (auto& x : ds) known |= x == d; if (had) CHECK(before.at(o) == d, "an existing child was replaced"); if (!w.m->use_transposition_table && !had) CHECK(!known, "a decision node is shared without a transposition table"); if (!known) ds.push_back(d); }
    }
    tree(w, false);
    // a search, sequential and concurrent, on a fresh tree
    AW v = any_world(r, r.p(0.7)); int K = r.pick({1, 4, 8}); g_perturb = r.pick({0, 20, 200}); h::g_desc += strf(" threads=%d", K);
    { ThtsPool pool(v.m, v.root, K); for (int q = 0; q < 3; q++) { pool.run_trials(r.i(1, 40)); g_tick++; } } g_perturb = 0; tree(v, true);
    // part of the tree is dropped, the manager is used again
    if (v.m->use_transposition_table && r.p()) { int t0 = v.root->decision_timestep; h::g_desc += " (manager used again for a new tree)"; shared_ptr<ThtsDNode> old = v.root; S s = v.env->get_initial_state_itfc(); bool keep = r.p(0.3); vector<shared_ptr<ThtsDNode>> kept; if (keep && !old->children.empty()) for (auto& q : old->children.begin()->second->children) kept.push_back(q.second);
        if (!keep) old = nullptr;
        switch (v.alg) { case 0: v.root = make_shared<UctDNode>(static_pointer_cast<UctManager>(v.m), s, 0, t0); break; case 2: v.root = make_shared<MentsDNode>(static_pointer_cast<MentsManager>(v.m), s, 0, t0); break; default: return; }
        old = nullptr; if (!keep) { ThtsPool pool(v.m, v.root, K); pool.run_trials(r.i(1, 40)); pool.join(); } if (!keep) tree(v, true); }
}); }
