// small helpers for the demonstrations
#pragma once
#include <raft>
#include <raftio>
#include <raftinc/ringbuffer.tcc>
#include <raftinc/schedule.hpp>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <chrono>
#include <atomic>
#include <vector>
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); std::fflush(stdout); std::_Exit(1); } } while (0)
template <class T> FIFO *mk(size_t cap, void *data = nullptr, size_t start = 16) { return RingBuffer<T, Type::Heap, false>::make_new_fifo(cap, start, data); }
struct FAcc : public FIFO {
  static void map(FIFO *f, ptr_map_t *m) { (f->*(&FAcc::setPtrMap))(m); }
  static void out(FIFO *f, ptr_set_t *m) { (f->*(&FAcc::setPtrSet))(m); }
  static void inPeek(FIFO *f, ptr_set_t *m) { (f->*(&FAcc::setInPeekSet))(m); }
  static void outPeek(FIFO *f, ptr_set_t *m) { (f->*(&FAcc::setOutPeekSet))(m); }
};
static inline void watchdog(int s) { std::thread([s] { std::this_thread::sleep_for(std::chrono::seconds(s)); std::printf("FAILED: no progress\n"); std::fflush(stdout); std::_Exit(1); }).detach(); }
