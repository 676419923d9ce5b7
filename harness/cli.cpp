// Runs the command line tools: "exec run|gas <hex arg>...". The directory of the tools is in VF_TOOLS.
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <sys/wait.h>
#include <time.h>
extern char** environ;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void runScript(const std::string& mode, const vf::Script& sc)
{
  std::string dir = getenv("VF_TOOLS");
  for (size_t k = 0; k < sc.size(); ++k) {
    std::string tool = sc[k][1], path = dir + "/" + mode + "eni_" + tool;
    std::vector<std::string> args;
    for (size_t i = 2; i < sc[k].size(); ++i) args.push_back(vf::bytesOf(sc[k][i]));
    std::vector<char*> av;
    av.push_back((char*)path.c_str());
    for (size_t i = 0; i < args.size(); ++i) av.push_back((char*)args[i].c_str());
    av.push_back(0);
    int o[2], e[2];
    if (pipe2(o, O_CLOEXEC) || pipe2(e, O_CLOEXEC)) exit(3);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_adddup2(&fa, o[1], 1);
    posix_spawn_file_actions_adddup2(&fa, e[1], 2);
    pid_t pid = 0;
    int rc = posix_spawn(&pid, path.c_str(), &fa, 0, &av[0], environ);
    posix_spawn_file_actions_destroy(&fa);
    close(o[1]); close(e[1]);
    if (rc) { fprintf(stderr, "cannot start %s\n", path.c_str()); exit(3); }
    std::string out[2];
    struct pollfd p[2] = { { o[0], POLLIN, 0 }, { e[0], POLLIN, 0 } };
    double end = now() + 20;
    int open = 2;
    bool hung = false;
    while (open > 0) {
      if (now() > end || out[0].size() + out[1].size() > 10000000) { hung = true; kill(pid, SIGKILL); break; }
      poll(p, 2, 1000);
      for (int i = 0; i < 2; ++i)
        if (p[i].fd >= 0 && p[i].revents) {
          char b[4096];
          ssize_t n = read(p[i].fd, b, sizeof b);
          if (n <= 0) { p[i].fd = -1; --open; }
          else out[i].append(b, n);
        }
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    close(o[0]); close(e[0]);
    if (out[1].size() > 1500) out[1].resize(1500);
    vf::putf("{\"op\":\"exec\",\"tool\":\"%s\",\"st\":%d,\"args\":[", tool.c_str(), hung ? 999 : WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
    for (size_t i = 0; i < args.size(); ++i) { vf::put(i ? "," : ""); vf::putBytes(args[i]); }
    vf::put("],\"out\":"); vf::putBytes(out[0]);
    vf::put(",\"err\":"); vf::putBytes(out[1]);
    vf::put("}\n");
  }
}

int main(int argc, char** argv)
{
  // the mode is the prefix of the tools' names, "-" for none
  if (argc > 1 && !strcmp(argv[1], "-")) argv[1] = (char*)"";
  return vf::run(argc, argv, runScript, 100);
}
