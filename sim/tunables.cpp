// The capacities behind the hooks in /repo, kept apart from other globals
// (their addresses are not shared state of the code under test).
#include <stdint.h>
__attribute__((section("simtun"))) char sim_tunables_lo = 1;
namespace flbwt {
__attribute__((section("simtun"))) uint64_t sim_table_size = 0;
__attribute__((section("simtun"))) uint64_t sim_table_block = 0;
__attribute__((section("simtun"))) uint64_t sim_queue_block = 0;
__attribute__((section("simtun"))) uint64_t sim_index_bits = 0;
}
__attribute__((section("simtun"))) char sim_tunables_hi = 1;
