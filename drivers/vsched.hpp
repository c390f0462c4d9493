// vsched: deterministic user-level scheduler for the threads of this process.
// Interposes the pthread primitives; exactly one thread runs at a time; virtual time.
#pragma once
#include <cstdint>
#include <string>
#include <functional>
namespace vs {
struct Config {
	uint64_t seed = 1;
	int strategy = 0;          // 0 uniform random, 1 sticky random, 2 PCT (depth d), 3 replay of a choice list
	int depth = 3;             // number of priority change points (strategy 2)
	int sticky = 8;            // strategy 1: switch with probability 1/sticky
	int timeoutPermille = 20;  // probability that a pending deadline fires although threads can run
	int spuriousPermille = 2;  // probability of a spurious condition variable wake-up
	uint64_t maxSteps = 400000;
};
void start(Config const&);        // calling thread becomes thread 0; must be the only thread
void stop();                      // leave scheduled mode; all other threads must have ended
bool active();
int  self();                      // number of the calling thread (creation order), -1 outside
void point();                     // explicit scheduling point
int64_t now_ns();                 // virtual time
uint64_t steps();
uint32_t rnd(uint32_t n);         // scheduler's random numbers (for scenario choices made at run time)
void log(std::string const& json);// append one event (total order, not a scheduling point)
void set_end_handler(std::function<void(std::string const& how, std::string const& detail)>); // deadlock / step limit: must not return
std::string const& buffer();
std::string blocked_description();
int live_threads();
}
