// Controlled clock: the solvers read the time through crocoddyl's Stopwatch only.
#include <crocoddyl/core/utils/stop-watch.hpp>
#include "clock.hpp"
namespace clk { long reads = 0; double now = 0; std::function<double(long)> fn; }
namespace crocoddyl {
long double Stopwatch::take_time() {
  long i = clk::reads++;
  if (clk::fn) clk::now = clk::fn(i);
  return clk::now;
}
}
