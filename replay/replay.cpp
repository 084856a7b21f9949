#include "common.hpp"
#include "c01.hpp"
#include "tables.hpp"
#include "dd2.hpp"
int main(int argc, char** argv) {
    std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    const std::string p = argv[1]; rng.seed(std::stoul(argv[2])); deadline = now() + std::stod(argv[3]);
    const std::map<std::string, std::function<void()>> all{{"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04},
        {"C05", C05}, {"C06", C06}, {"C07", C07}, {"C08", C08}, {"C09", C09}, {"C18", C18}, {"C23", C23}, {"C10", C10}, {"C11", C11}, {"C12", C12}, {"C13", C13}, {"C14", C14}, {"C15", C15}, {"C16", C16}, {"C17", C17}, {"C19", C19}, {"C20", C20}, {"C21", C21}, {"C22", C22}, {"C24", C24}, {"C25", C25}};
    try { all.at(p)(); } catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
    printf("CASES %ld\n", cases);
    return 0;
}
