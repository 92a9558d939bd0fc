#include "common.hpp"
std::vector<Entry> &entries() { static std::vector<Entry> v; return v; }
extern "C" __attribute__((visibility("default"))) void sim_rank_entry(const char *name) {
    try {
        if (getenv("SIM_CONSOLE")) setvbuf(stdout, nullptr, _IONBF, 0); // debugging aid
        Case c;
        for (auto &e : entries()) if (!strcmp(e.name, name)) { e.fn(c); return; }
        A->mpi_error((std::string("HARNESS no such entry ") + name).c_str());
    } catch (std::exception &e) {
        A->proc_exit(134, (std::string("uncaught exception: ") + e.what()).substr(0, 500).c_str());
    } catch (...) { A->proc_exit(134, "uncaught exception"); }
}
