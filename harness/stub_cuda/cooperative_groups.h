// Stand-in for the device runtime: one simulated device thread at a time.
#pragma once
namespace cooperative_groups {
struct thread_block {
	static unsigned long long thread_rank() { return dev::block_rank(); }
	static unsigned long long num_threads() { return dev::block_threads(); }
	static unsigned long long size() { return num_threads(); }
};
struct grid_group {
	static unsigned long long thread_rank() { return dev::block_index() * dev::block_threads() + dev::block_rank(); }
	static unsigned long long num_threads() { return dev::blocks() * dev::block_threads(); }
	static unsigned long long size() { return num_threads(); }
};
} // namespace cooperative_groups
