#include "sim.h"
#define SCENARIOS(X) \
  X(par_render) X(par_nested) X(par_wide) X(par_synth) X(par_fail) X(par_nomem) X(par_nomem_noise) X(seq_render) X(seq_fail) X(divide) \
  X(pool_tasks) X(futures) X(lifecycle) X(list_history) X(event_memory) \
  X(filter_stream) X(filter_change) X(filter_fail) X(stream_other) \
  X(file_roundtrip) X(file_write_fail) X(file_damaged) X(render_file) X(render_file_fail) X(plot) \
  X(op_alloc) X(op_rerun) X(par_ops) X(random_draws) X(noise_seeds) X(random_contracts) X(path_ranges) X(path_arrays) X(noise_channels) X(wave_channels)
#define X(n) void scen_##n(void);
SCENARIOS(X)
#undef X
const sim_scenario_t sim_scenarios[] = {
#define X(n) { #n, scen_##n },
  SCENARIOS(X)
#undef X
  { 0, 0 }
};
