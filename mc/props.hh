#pragma once
struct Prop { const char *id, *level; std::function<void(Ctx &, bool)> run; };   // run(ctx, setup_only)
std::vector<Prop> &props();
