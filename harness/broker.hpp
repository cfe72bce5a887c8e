// A broker process: start, end, statistics.
#pragma once
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
extern char** environ;

struct Broker {
  pid_t pid = -1;
  int port = 0, out = -1;
  std::string text, dir;
  bool start(const std::string& exe, const std::string& d, size_t chunk, uint64_t seed, int mode, bool ini) {
    dir = d;
    mkdir(d.c_str(), 0700);
    int fd[2];
    if (pipe(fd)) return false;
    std::string frag = "VP_FRAG=" + std::to_string(seed) + ":" + std::to_string(mode), ck = "--chunksize=" + std::to_string(chunk);
    if (ini) { std::ofstream o(d + "/b.ini"); o << "[Connection]\nport = 0\nchunksize = " << chunk << "\n[DistributedCombi]\nnumSystems = 2\n"; }
    std::vector<std::string> env;
    for (char** e = environ; *e; ++e) if (strncmp(*e, "VP_FRAG=", 8) != 0) env.push_back(*e);
    env.push_back(frag);
    std::vector<char*> ep;
    for (auto& e : env) ep.push_back(&e[0]);
    ep.push_back(nullptr);
    std::vector<std::string> arg = ini ? std::vector<std::string>{exe, "b.ini"} : std::vector<std::string>{exe, "--port=0", "--numSystems=2", ck};
    std::vector<char*> ap;
    for (auto& a : arg) ap.push_back(&a[0]);
    ap.push_back(nullptr);
    pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (chdir(d.c_str())) _exit(99);
      dup2(fd[1], 1);
      close(fd[0]);
      close(fd[1]);
      execve(exe.c_str(), ap.data(), ep.data());
      _exit(98);
    }
    close(fd[1]);
    out = fd[0];
    const std::string key = "Server runs on port: ";
    while (true) {
      char b[500];
      ssize_t k = read(out, b, sizeof b);
      if (k <= 0) return false;
      text.append(b, (size_t)k);
      size_t p = text.find(key);
      if (p != std::string::npos && text.find('\n', p) != std::string::npos) { port = atoi(text.c_str() + p + key.size()); return port > 0; }
    }
  }
  int finish() {  // waits for the end; exit status
    char b[4000];
    ssize_t k;
    while ((k = read(out, b, sizeof b)) > 0) text.append(b, (size_t)k);
    close(out);
    int st = 0;
    waitpid(pid, &st, 0);
    return st;
  }
};

static long long statOf(const std::string& txt, const std::string& key) {
  size_t p = txt.find("\"" + key + "\"");
  if (p == std::string::npos) return -1;
  p = txt.find(':', p);
  while (p < txt.size() && !isdigit((unsigned char)txt[p])) ++p;
  return atoll(txt.c_str() + p);
}
