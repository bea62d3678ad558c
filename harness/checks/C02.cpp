#include "common/slicer_explore.hpp"
// Besides the common exploration: a program whose first magic state takes longer than the dag pipeline's retry limit.
static void slow_factory(vf::Options& o)
{
    using namespace vf;
    const std::string text = "0rQ\nrrr";
    explore(o, "slow factory", 3, [&](Ctx& c, uint64_t u) {
        auto mode = u == 0 ? PipelineMode::Stream : u == 1 ? PipelineMode::Wave : PipelineMode::Dag;
        std::vector<LSInstruction> prog{parse_ls_instruction("RequestMagicState 10 0"), parse_ls_instruction("MultiBodyMeasure 0:Z,10:Z"), parse_ls_instruction("MeasureSinglePatch 10 X")};
        LayoutModel L(text, 120, false);
        LayoutFromSpec layout(text, DistillationOptions{false, 120});
        c.begin(cat("layout ", text, " period 120\npipeline ", mode_name(mode), "\n", program_text({0}, prog)));
        Monitor m(L, {0}, prog, mode, false);
        run_monitored(L, layout, {0}, prog, {mode, GraphSearchProvider::Djikstra}, false, 400, m, &c);
        c.count(TRACES);
        for (auto& v : m.verdicts()) c.violation(cat(mode_name(mode), ": ", v.key.find("retries") != std::string::npos ? "the run failed: an instruction is given up after 100 retries" : v.key), v.detail);
    });
}
int main(int argc, char** argv) { return vf::slicer_main("C02", argc, argv, slow_factory); }
