// Fault and signal injection into the process under test.  Every system call the editor
// makes (also from inside the C library), every allocation and, in the `sig' build, every
// memory access of the editor is an event; events are counted within a window of standard
// input and the K-th one is made to fail, to be cut short, to kill the process, or to
// be preceded by a signal.  With a hook that starts with "N/" the events are those of the
// N-th process the editor forks (up to its exec), to which a signal is then sent.
#pragma once
#include <string>
struct Inj {
  long n, k, w0, w1, off; int act, err, fired, mark, persist; char cls[32]; char lab[1 << 20];
  char sticky; int child, swap, rogue; int nt; char tail[4096]; pid_t pid;
};
extern Inj *inj;                         // shared with the process under test
void inj_init(); void inj_reset();
void inj_arm(const std::string &hook, long k, long err, long w0, long w1, const std::string &tail);
std::string inj_labels();
