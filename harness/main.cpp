#include "common.h"
#include <fstream>
#include <fcntl.h>
__attribute__((weak)) void RunCpu(const Scenario&);
__attribute__((weak)) void RunVm(const Scenario&);
__attribute__((weak)) void RunDbg(const Scenario&);
__attribute__((weak)) void RunAsm(const Scenario&);
__attribute__((weak)) void RunMsg(const Scenario&);
__attribute__((weak)) void RunDinfo(const Scenario&);
int main(int argc, char** argv) {
    // harness <mode> <scenario file> <trace file> <batch> <limit seconds> <seconds to start scenarios in>
    if (argc < 7) return 96;
    std::string mode = argv[1];
    std::ifstream in(argv[2]);
    if (!in) return 96;
    auto scs = ReadScenarios(in);
    in.close();
    int fd = open(argv[3], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (fd < 0) return 96;
    if (fd != 3) { dup2(fd, 3); close(fd); }
    Handler h;
    if (mode == "cpu") h = RunCpu ? Handler(RunCpu) : Handler();
    else if (mode == "vm") h = RunVm ? Handler(RunVm) : Handler();
    else if (mode == "dbg") h = RunDbg ? Handler(RunDbg) : Handler();
    else if (mode == "asm") h = RunAsm ? Handler(RunAsm) : Handler();
    else if (mode == "msg") h = RunMsg ? Handler(RunMsg) : Handler();
    else if (mode == "dinfo") h = RunDinfo ? Handler(RunDinfo) : Handler();
    else return 96;
    if (!h) return 95;   // this part of the harness did not compile against the tree
    return RunAll(scs, h, std::stoul(argv[4]), static_cast<unsigned>(std::stoul(argv[5])), std::stol(argv[6]));
}
