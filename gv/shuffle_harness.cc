// Reads commands, drives index_shuffle under sanitizers, prints one result line per command.
//   full MAX SEED ROUNDS            -> every index once: "ok" or "dup"/"range"
//   vals MAX SEED ROUNDS I...       -> values
//   race MAX SEED ROUNDS THREADS    -> many threads compute the full permutation, compared with this thread's
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "grain/_src/python/experimental/index_shuffle/index_shuffle.h"

using grain::random::index_shuffle;

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string cmd;
    uint64_t mx, seed, rounds;
    in >> cmd >> mx >> seed >> rounds;
    if (cmd == "full") {
      std::vector<bool> seen(mx + 1);
      std::string res = "ok";
      uint64_t fixed = 0;
      for (uint64_t i = 0; i <= mx; i++) {
        uint64_t v = index_shuffle(i, mx, (uint32_t)seed, (uint32_t)rounds);
        if (v > mx) { res = "range " + std::to_string(i); break; }
        if (seen[v]) { res = "dup " + std::to_string(i); break; }
        seen[v] = true;
        fixed += v == i;
      }
      std::cout << res << " " << fixed << "\n";
    } else if (cmd == "vals") {
      uint64_t i;
      while (in >> i) std::cout << index_shuffle(i, mx, (uint32_t)seed, (uint32_t)rounds) << " ";
      std::cout << "\n";
    } else if (cmd == "race") {
      uint64_t nt;
      in >> nt;
      std::vector<std::vector<uint64_t>> got(nt);
      auto work = [&](uint64_t t) {
        for (uint64_t i = 0; i <= mx; i++)
          got[t].push_back(index_shuffle(i, mx, (uint32_t)(seed + t), (uint32_t)(rounds + 2 * t)));
      };
      std::vector<std::thread> ts;
      for (uint64_t t = 0; t < nt; t++) ts.emplace_back(work, t);
      for (auto& t : ts) t.join();
      std::string res = "ok";
      for (uint64_t t = 0; t < nt; t++)
        for (uint64_t i = 0; i <= mx; i++)
          if (got[t][i] != index_shuffle(i, mx, (uint32_t)(seed + t), (uint32_t)(rounds + 2 * t)))
            res = "differs " + std::to_string(i);
      std::cout << res << "\n";
    }
    std::cout.flush();
  }
}
