// Component workloads: one call of a component, with an optional refusal.
#pragma once
#include "sim.h"
#include <functional>
#include <string>
namespace sim {
// fail > 0: the nth memory request of the call is refused; < 0: it and all later ones
Ending part_call(int id, int64_t fail, const std::function<void()> &f, bool *refused, std::string *what = NULL);
void part(Scenario &s); // provided by the component
}
