// Names of the spdlog 0.x API used by src/broker_core.cpp which spdlog 1.x no longer declares.
// Only used to type-check that file for analysis; nothing here is ever compiled to code or run.
#pragma once
#include <chrono>
#include <functional>
#include <spdlog/sinks/rotating_file_sink.h>
#include <spdlog/spdlog.h>
namespace spdlog
{
	enum class async_overflow_policy { block_retry, discard_log_msg };
	void set_async_mode(std::size_t queue_size,
		const async_overflow_policy overflow_policy = async_overflow_policy::block_retry,
		const std::function<void()> &worker_warmup_cb = nullptr,
		const std::chrono::milliseconds &flush_interval_ms = std::chrono::milliseconds::zero(),
		const std::function<void()> &worker_teardown_cb = nullptr);
	std::shared_ptr<spdlog::logger> create(const std::string &name, spdlog::sink_ptr sink);
	std::shared_ptr<spdlog::logger> create(
		const std::string &name, std::shared_ptr<spdlog::sinks::rotating_file_sink_mt> sink);
} // namespace spdlog
