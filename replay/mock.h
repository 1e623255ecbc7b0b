#pragma once
#include "h.h"
#include "config.h"
#include "perturb.h"
// nodes and environment that record every call a trial makes; calls of one trial share its context object
struct Ev { char kind; const void* node; A a; O o; double v = 0; vector<double> before, after; double ra = 0, rt = 0; int kids = 0; S s; };
struct Rec { std::mutex m; map<const void*, vector<Ev>> by; vector<shared_ptr<ThtsEnvContext>> keep; void add(const void* ctx, Ev e) { std::lock_guard<std::mutex> l(m); by[ctx].push_back(e); } };
inline Rec* g_rec = nullptr;
inline thread_local const void* t_ctx = nullptr;
struct RecEnv : TabEnv { using TabEnv::TabEnv;
    shared_ptr<ThtsEnvContext> sample_context_itfc(S s) const override { auto c = make_shared<ThtsEnvContext>(); if (g_rec) { { std::lock_guard<std::mutex> l(g_rec->m); g_rec->keep.push_back(c); } t_ctx = c.get(); Ev e; e.kind = 'X'; e.s = s; g_rec->add(c.get(), e); } return c; }
    double get_reward_itfc(S s, A a, O o = nullptr) const override { double v = TabEnv::get_reward_itfc(s, a, o); if (g_rec && t_ctx) { Ev e; e.kind = 'R'; e.s = s; e.a = a; e.o = o; e.v = v; g_rec->add(t_ctx, e); } return v; } };
struct RC; struct RD : ThtsDNode { using ThtsDNode::ThtsDNode; mutable R rr{1};
    void visit_itfc(ThtsEnvContext& c) override { ThtsDNode::visit_itfc(c); if (g_rec) { Ev e; e.kind = 'V'; e.node = this; g_rec->add(&c, e); } }
    A select_action_itfc(ThtsEnvContext& c) override { auto& env = (TabEnv&)*thts_manager->thts_env; A a = mkA(rr.i(0, env.na[sid(*state)] - 1)); create_child_node_itfc(a); if (g_rec) { Ev e; e.kind = 'A'; e.node = this; e.a = a; g_rec->add(&c, e); } return a; }
    A recommend_action_itfc(ThtsEnvContext&) const override { return mkA(0); }
    void backup_itfc(const vector<double>& b, const vector<double>& af, const double ra, const double rt, ThtsEnvContext& c) override { if (g_rec) { Ev e; e.kind = 'B'; e.node = this; e.before = b; e.after = af; e.ra = ra; e.rt = rt; g_rec->add(&c, e); } }
    shared_ptr<ThtsCNode> create_child_node_helper_itfc(A a) const override;
    string get_pretty_print_val() const override { return ""; } };
struct RC : ThtsCNode { using ThtsCNode::ThtsCNode; mutable R rr{1};
    void visit_itfc(ThtsEnvContext& c) override { ThtsCNode::visit_itfc(c); if (g_rec) { Ev e; e.kind = 'v'; e.node = this; g_rec->add(&c, e); } }
    O sample_observation_itfc(ThtsEnvContext& c) override { auto& env = (TabEnv&)*thts_manager->thts_env; auto& t = env.tr[sid(*state)][aid(*action)]; int k = rr.i(0, (int)t.size() - 1); auto it = t.begin(); std::advance(it, k); O o = mkS(it->first); int n0 = children.size(); create_child_node_itfc(o, mkS(it->first)); if (g_rec) { Ev e; e.kind = 'o'; e.node = this; e.o = o; e.kids = (int)children.size() - n0; g_rec->add(&c, e); } return o; }
    void backup_itfc(const vector<double>& b, const vector<double>& af, const double ra, const double rt, ThtsEnvContext& c) override { if (g_rec) { Ev e; e.kind = 'b'; e.node = this; e.before = b; e.after = af; e.ra = ra; e.rt = rt; g_rec->add(&c, e); } }
    shared_ptr<ThtsDNode> create_child_node_helper_itfc(O o, S s) const override { auto d = make_shared<RD>(thts_manager, s ? s : static_pointer_cast<const State>(o), decision_depth + 1, decision_timestep + 1, shared_from_this()); d->rr = R(rr.g()); d->heuristic_value = d->rr.val(); return d; }
    string get_pretty_print_val() const override { return ""; } };
inline shared_ptr<ThtsCNode> RD::create_child_node_helper_itfc(A a) const { auto c = make_shared<RC>(thts_manager, state, a, decision_depth, decision_timestep, shared_from_this()); c->rr = R(rr.g()); return c; }
struct RW { shared_ptr<RecEnv> env; shared_ptr<ThtsManager> m; shared_ptr<RD> root; int K; };
inline RW rec_world(R& r) { RW w; w.env = make_shared<RecEnv>(r, r.i(2, 7), 3, 3, r.p()); ThtsManagerArgs a(w.env); common_args(r, a); a.max_depth = r.pick({0, 1, 2, 4, 9, 25}); w.m = make_shared<ThtsManager>(a); keeps_ThtsManager(*w.m, a); w.root = make_shared<RD>(w.m, w.env->get_initial_state_itfc(), 0, 0); w.root->rr = R(r.g()); w.root->heuristic_value = r.val(); w.K = r.pick({1, 1, 1, 2, 4});
    g_desc = strf("threads=%d ", w.K) + dsc(a); return w; }
