#include "fake_grpc.h"

#include <algorithm>
#include <atomic>
#include <cstring>
#include <nlohmann/json.hpp>
#include <queue>
#include <random>
#include <set>
#include <thread>

namespace grpc
{
const Status Status::OK;
const Status Status::CANCELLED(StatusCode::CANCELLED, "");

namespace internal
{

class ServerImpl
{
  public:
    std::string address;
    std::shared_ptr<ServerCredentials> creds;
    int64_t max_receive = 4 * 1024 * 1024;
    std::vector<std::shared_ptr<ServiceImpl>> services;
    size_t queues = 0;
    std::atomic<bool> down{false};
};

class ChannelImpl
{
  public:
    std::string target;
    std::shared_ptr<ChannelCredentials> creds;
    ChannelArguments args;
    // Set for in-process channels.
    std::shared_ptr<ServerImpl> server;
    int64_t max_receive = 4 * 1024 * 1024;
};

namespace
{

std::string port_of(const std::string &address)
{
    auto pos = address.rfind(':');
    return pos == std::string::npos ? address : address.substr(pos + 1);
}

struct Fault
{
    std::string address;
    std::string method;
    int64_t skip;
    int64_t count;
    int code;
    int phase; // 0: request never reaches the server, 1: reply replaced
};

struct Delayed
{
    std::chrono::steady_clock::time_point when;
    uint64_t order;
    std::function<void()> action;
    bool operator<(const Delayed &other) const
    {
        return std::tie(when, order) > std::tie(other.when, other.order);
    }
};

// All state that outlives single objects. Allocated once and never released, threads may use it until exit.
struct Global
{
    std::mutex mutex;
    std::map<std::string, std::shared_ptr<ServerImpl>> servers;
    std::vector<Fault> faults;
    int64_t random_delay_us = 0;
    std::mt19937_64 random{1};
    std::map<std::string, int64_t> address_delay_us;
    nlohmann::json channel_log = nlohmann::json::array();
    nlohmann::json server_log = nlohmann::json::array();

    std::map<std::string, uint64_t> method_calls;
    std::map<std::string, uint64_t> method_faults;
    uint64_t calls = 0;
    uint64_t delivered = 0;
    uint64_t injected = 0;
    uint64_t unreachable = 0;
    uint64_t inversions = 0;
    uint64_t in_flight = 0;
    uint64_t max_in_flight = 0;
    uint64_t max_delivered_sequence = 0;
    uint64_t largest_request = 0;
    uint64_t largest_reply = 0;

    // Longest time between taking an event out of a queue and handing it to the caller.
    std::atomic<int64_t> take_delay_us{0};

    std::mutex timer_mutex;
    std::condition_variable timer_cv;
    std::priority_queue<Delayed> timer_queue;
    bool timer_running = false;
    uint64_t timer_order = 0;

    void after(int64_t delay_us, std::function<void()> action)
    {
        if (delay_us <= 0)
        {
            action();
            return;
        }
        std::lock_guard lock(timer_mutex);
        if (!timer_running)
        {
            timer_running = true;
            std::thread([this]() { timer_loop(); }).detach();
        }
        timer_queue.push(Delayed{std::chrono::steady_clock::now() + std::chrono::microseconds(delay_us), timer_order++,
                                 std::move(action)});
        timer_cv.notify_one();
    }

    void timer_loop()
    {
        std::unique_lock lock(timer_mutex);
        while (true)
        {
            if (timer_queue.empty())
            {
                timer_cv.wait(lock);
                continue;
            }
            auto when = timer_queue.top().when;
            if (std::chrono::steady_clock::now() < when)
            {
                timer_cv.wait_until(lock, when);
                continue;
            }
            auto action = timer_queue.top().action;
            timer_queue.pop();
            lock.unlock();
            action();
            action = nullptr;
            lock.lock();
        }
    }
};

Global &global()
{
    static Global *instance = new Global();
    return *instance;
}

void complete(const std::shared_ptr<CallState> &state, Status status, std::string payload)
{
    Event event{};
    bool push = false;
    if (status.ok() && state->max_receive >= 0 && int64_t(payload.size()) > state->max_receive)
    {
        status = Status(StatusCode::RESOURCE_EXHAUSTED, "Received message larger than max");
        payload.clear();
    }
    {
        auto &g = global();
        std::lock_guard lock(g.mutex);
        ++g.delivered;
        --g.in_flight;
        if (state->sequence < g.max_delivered_sequence)
        {
            ++g.inversions;
        }
        g.max_delivered_sequence = std::max(g.max_delivered_sequence, state->sequence);
        g.largest_reply = std::max<uint64_t>(g.largest_reply, payload.size());
    }
    {
        std::lock_guard lock(state->mutex);
        state->completed = true;
        state->status = std::move(status);
        state->payload = std::move(payload);
        if (state->finish_requested)
        {
            push = true;
            event = std::move(state->event);
            state->event = Event{};
        }
    }
    if (push)
    {
        state->queue->push(std::move(event));
    }
}

int64_t pick_delay(const std::string &address)
{
    auto &g = global();
    std::lock_guard lock(g.mutex);
    int64_t delay = 0;
    auto it = g.address_delay_us.find(port_of(address));
    if (it != g.address_delay_us.end())
    {
        delay += it->second;
    }
    if (g.random_delay_us > 0)
    {
        delay += int64_t(g.random() % uint64_t(g.random_delay_us + 1));
    }
    return delay;
}

void deliver(std::shared_ptr<CallState> state, Status status, std::string payload)
{
    const auto delay = pick_delay(state->address);
    global().after(delay, [state, status, payload = std::move(payload)]() mutable {
        complete(state, status, std::move(payload));
    });
}

} // namespace

void QueueImpl::begin_op()
{
    std::lock_guard lock(m_mutex);
    ++m_pending;
}

void QueueImpl::push(Event event)
{
    // Notify under the lock: the queue may be gone right after the last event was taken.
    std::lock_guard lock(m_mutex);
    --m_pending;
    m_events.emplace_back(std::move(event));
    if (m_shutdown)
    {
        m_cv.notify_all();
    }
    else
    {
        m_cv.notify_one();
    }
}

int QueueImpl::next(void **tag, bool *ok, const std::chrono::steady_clock::time_point *deadline)
{
    Event event;
    {
        std::unique_lock lock(m_mutex);
        while (m_events.empty())
        {
            if (m_shutdown && m_pending == 0)
            {
                m_cv.notify_all();
                return 0;
            }
            if (deadline == nullptr)
            {
                m_cv.wait(lock);
            }
            else if (m_cv.wait_until(lock, *deadline) == std::cv_status::timeout && m_events.empty())
            {
                return 2;
            }
        }
        event = std::move(m_events.front());
        m_events.pop_front();
        if (m_shutdown)
        {
            m_cv.notify_all();
        }
    }
    if (event.finalize)
    {
        event.finalize();
        // Nothing here may order threads: the thread sanitizer would miss races of the callers.
        const auto delay = global().take_delay_us.load(std::memory_order_relaxed);
        if (delay > 0)
        {
            thread_local std::minstd_rand random(std::hash<std::thread::id>()(std::this_thread::get_id()) | 1);
            std::this_thread::sleep_for(std::chrono::microseconds(random() % uint64_t(delay + 1)));
        }
    }
    *tag = event.tag;
    *ok = event.ok;
    return 1;
}

void QueueImpl::shutdown()
{
    std::lock_guard lock(m_mutex);
    m_shutdown = true;
    m_cv.notify_all();
}

void ServiceImpl::request(const std::string &method, PendingRequest request)
{
    request.queue->begin_op();
    std::unique_lock lock(mutex);
    if (down)
    {
        lock.unlock();
        request.queue->push(Event{request.tag, false, nullptr});
        return;
    }
    auto &queue = methods[method];
    if (queue.calls.empty())
    {
        queue.requests.emplace_back(std::move(request));
        return;
    }
    auto call = queue.calls.front();
    queue.calls.pop_front();
    ++active;
    lock.unlock();
    request.bind(call);
    request.queue->push(Event{request.tag, true, nullptr});
}

void ServiceImpl::incoming(std::shared_ptr<ServerCall> call)
{
    std::unique_lock lock(mutex);
    if (down)
    {
        lock.unlock();
        deliver(call->client, Status(StatusCode::UNAVAILABLE, "server is shutting down"), "");
        return;
    }
    auto &queue = methods[call->client->method];
    if (queue.requests.empty())
    {
        queue.calls.emplace_back(std::move(call));
        return;
    }
    auto request = std::move(queue.requests.front());
    queue.requests.pop_front();
    ++active;
    lock.unlock();
    request.bind(call);
    request.queue->push(Event{request.tag, true, nullptr});
}

void ServiceImpl::finished()
{
    std::lock_guard lock(mutex);
    --active;
    idle.notify_all();
}

void ServiceImpl::stop()
{
    std::vector<PendingRequest> requests;
    std::vector<std::shared_ptr<ServerCall>> calls;
    {
        std::lock_guard lock(mutex);
        down = true;
        for (auto &[name, queue] : methods)
        {
            std::move(queue.requests.begin(), queue.requests.end(), std::back_inserter(requests));
            std::move(queue.calls.begin(), queue.calls.end(), std::back_inserter(calls));
            queue.requests.clear();
            queue.calls.clear();
        }
    }
    for (auto &call : calls)
    {
        deliver(call->client, Status(StatusCode::UNAVAILABLE, "server is shutting down"), "");
    }
    for (auto &request : requests)
    {
        request.queue->push(Event{request.tag, false, nullptr});
    }
    std::unique_lock lock(mutex);
    idle.wait(lock, [this]() { return active == 0; });
    server.reset();
}

void start_call(const std::shared_ptr<ChannelImpl> &channel, const std::string &method, std::string request,
                std::shared_ptr<CallState> state)
{
    auto &g = global();
    state->address = channel->target;
    state->max_receive = channel->max_receive;
    std::shared_ptr<ServerImpl> server = channel->server;
    int fault_code = 0;
    int fault_phase = 0;
    {
        std::lock_guard lock(g.mutex);
        state->sequence = ++g.calls;
        ++g.in_flight;
        g.max_in_flight = std::max(g.max_in_flight, g.in_flight);
        ++g.method_calls[method];
        g.largest_request = std::max<uint64_t>(g.largest_request, request.size());
        if (!server)
        {
            auto it = g.servers.find(port_of(channel->target));
            if (it != g.servers.end())
            {
                server = it->second;
            }
        }
        for (auto &fault : g.faults)
        {
            if (!fault.address.empty() && port_of(fault.address) != port_of(channel->target))
            {
                continue;
            }
            if (!fault.method.empty() &&
                (method.size() < fault.method.size() ||
                 method.compare(method.size() - fault.method.size(), fault.method.size(), fault.method) != 0))
            {
                continue;
            }
            if (fault.skip > 0)
            {
                --fault.skip;
                continue;
            }
            if (fault.count == 0)
            {
                continue;
            }
            if (fault.count > 0)
            {
                --fault.count;
            }
            fault_code = fault.code;
            fault_phase = fault.phase;
            ++g.injected;
            ++g.method_faults[method];
            break;
        }
    }
    if (fault_code != 0 && fault_phase == 0)
    {
        deliver(state, Status(StatusCode(fault_code), "injected failure"), "");
        return;
    }
    std::string refusal;
    if (!server || server->down)
    {
        refusal = "failed to connect to " + channel->target;
    }
    else if (!channel->server && server->creds && channel->creds)
    {
        if (server->creds->secure != channel->creds->secure)
        {
            refusal = "handshake failed: one side is not encrypted";
        }
        else if (server->creds->secure)
        {
            const auto &root = channel->creds->options.pem_root_certs;
            bool trusted = root == server->creds->options.pem_root_certs;
            for (const auto &pair : server->creds->options.pem_key_cert_pairs)
            {
                trusted = trusted || (pair.cert_chain == root);
                if (pair.private_key.empty() || pair.cert_chain.empty())
                {
                    refusal = "handshake failed: server has no key or certificate";
                }
            }
            if (!trusted)
            {
                refusal = "handshake failed: certificate is not trusted";
            }
        }
    }
    if (!refusal.empty())
    {
        {
            std::lock_guard lock(g.mutex);
            ++g.unreachable;
        }
        deliver(state, Status(StatusCode::UNAVAILABLE, refusal), "");
        return;
    }
    if (server->max_receive >= 0 && int64_t(request.size()) > server->max_receive)
    {
        deliver(state, Status(StatusCode::RESOURCE_EXHAUSTED, "Received message larger than max"), "");
        return;
    }
    auto call = std::make_shared<ServerCall>();
    call->client = state;
    call->request = std::move(request);
    call->server = server;
    call->reply_fault = fault_code;
    for (auto &service : server->services)
    {
        bool known = false;
        {
            std::lock_guard lock(service->mutex);
            known = service->methods.count(method) > 0;
        }
        if (known)
        {
            service->incoming(call);
            return;
        }
    }
    deliver(state, Status(StatusCode::UNIMPLEMENTED, "no handler for " + method), "");
}

void request_finish(std::shared_ptr<CallState> state, Event event)
{
    bool push = false;
    state->queue->begin_op();
    {
        std::lock_guard lock(state->mutex);
        if (state->completed)
        {
            push = true;
        }
        else
        {
            state->finish_requested = true;
            state->event = std::move(event);
        }
    }
    if (push)
    {
        state->queue->push(std::move(event));
    }
}

void server_finish(std::shared_ptr<ServerCall> call, Status status, std::string payload)
{
    if (call->reply_fault != 0)
    {
        status = Status(StatusCode(call->reply_fault), "injected failure");
        payload.clear();
    }
    auto server = call->server;
    const auto method = call->client->method;
    deliver(call->client, std::move(status), std::move(payload));
    for (auto &service : server->services)
    {
        bool known = false;
        {
            std::lock_guard lock(service->mutex);
            known = service->methods.count(method) > 0;
        }
        if (known)
        {
            service->finished();
            break;
        }
    }
}

} // namespace internal

std::shared_ptr<ChannelCredentials> InsecureChannelCredentials()
{
    return std::make_shared<ChannelCredentials>();
}

std::shared_ptr<ChannelCredentials> SslCredentials(const SslCredentialsOptions &options)
{
    auto creds = std::make_shared<ChannelCredentials>();
    creds->secure = true;
    creds->options = options;
    return creds;
}

std::shared_ptr<ServerCredentials> InsecureServerCredentials()
{
    return std::make_shared<ServerCredentials>();
}

std::shared_ptr<ServerCredentials> SslServerCredentials(const SslServerCredentialsOptions &options)
{
    auto creds = std::make_shared<ServerCredentials>();
    creds->secure = true;
    creds->options = options;
    return creds;
}

namespace
{
void apply_arguments(internal::ChannelImpl &impl)
{
    auto it = impl.args.m_ints.find(GRPC_ARG_MAX_RECEIVE_MESSAGE_LENGTH);
    if (it != impl.args.m_ints.end())
    {
        impl.max_receive = it->second;
    }
}
} // namespace

std::shared_ptr<Channel> CreateCustomChannel(const std::string &target,
                                             const std::shared_ptr<ChannelCredentials> &creds,
                                             const ChannelArguments &args)
{
    auto impl = std::make_shared<internal::ChannelImpl>();
    impl->target = target;
    impl->creds = creds;
    impl->args = args;
    apply_arguments(*impl);
    auto &g = internal::global();
    std::lock_guard lock(g.mutex);
    g.channel_log.push_back({{"target", target},
                             {"secure", creds->secure},
                             {"root", creds->options.pem_root_certs},
                             {"ints", args.m_ints},
                             {"strings", args.m_strings}});
    return std::make_shared<Channel>(impl);
}

std::shared_ptr<Channel> CreateChannel(const std::string &target, const std::shared_ptr<ChannelCredentials> &creds)
{
    return CreateCustomChannel(target, creds, ChannelArguments());
}

Server::Server(std::shared_ptr<internal::ServerImpl> impl) : m_impl(std::move(impl))
{
}

Server::~Server()
{
    Shutdown();
}

void Server::Shutdown()
{
    m_impl->down = true;
    {
        auto &g = internal::global();
        std::lock_guard lock(g.mutex);
        auto it = g.servers.find(internal::port_of(m_impl->address));
        if (it != g.servers.end() && it->second == m_impl)
        {
            g.servers.erase(it);
        }
    }
    for (auto &service : m_impl->services)
    {
        service->stop();
    }
}

void Server::Wait()
{
    while (!m_impl->down)
    {
        std::this_thread::sleep_for(std::chrono::milliseconds(10));
    }
}

std::shared_ptr<Channel> Server::InProcessChannel(const ChannelArguments &args)
{
    auto impl = std::make_shared<internal::ChannelImpl>();
    impl->target = m_impl->address;
    impl->args = args;
    impl->server = m_impl;
    apply_arguments(*impl);
    return std::make_shared<Channel>(impl);
}

ServerBuilder::ServerBuilder() : m_impl(std::make_shared<internal::ServerImpl>())
{
}

ServerBuilder &ServerBuilder::SetMaxReceiveMessageSize(int size)
{
    m_impl->max_receive = size;
    return *this;
}

ServerBuilder &ServerBuilder::SetMaxSendMessageSize(int)
{
    return *this;
}

ServerBuilder &ServerBuilder::SetMaxMessageSize(int size)
{
    return SetMaxReceiveMessageSize(size);
}

ServerBuilder &ServerBuilder::AddListeningPort(const std::string &address, std::shared_ptr<ServerCredentials> creds,
                                               int *)
{
    m_impl->address = address;
    m_impl->creds = std::move(creds);
    return *this;
}

ServerBuilder &ServerBuilder::RegisterService(Service *service)
{
    m_impl->services.emplace_back(service->verif_impl());
    return *this;
}

std::unique_ptr<ServerCompletionQueue> ServerBuilder::AddCompletionQueue(bool)
{
    ++m_impl->queues;
    return std::make_unique<ServerCompletionQueue>();
}

std::unique_ptr<Server> ServerBuilder::BuildAndStart()
{
    for (auto &service : m_impl->services)
    {
        service->server = m_impl;
    }
    if (!m_impl->address.empty())
    {
        auto &g = internal::global();
        std::lock_guard lock(g.mutex);
        g.servers[internal::port_of(m_impl->address)] = m_impl;
        nlohmann::json pairs = nlohmann::json::array();
        for (const auto &pair : m_impl->creds->options.pem_key_cert_pairs)
        {
            pairs.push_back({pair.private_key, pair.cert_chain});
        }
        g.server_log.push_back({{"address", m_impl->address},
                                {"secure", m_impl->creds->secure},
                                {"root", m_impl->creds->options.pem_root_certs},
                                {"pairs", pairs},
                                {"max_receive", m_impl->max_receive},
                                {"queues", m_impl->queues}});
    }
    return std::make_unique<Server>(m_impl);
}

void EnableDefaultHealthCheckService(bool)
{
}

} // namespace grpc

// ---------------------------------------------------------------------------------------------------------------------
// Control functions for the test drivers.

#define VF_EXPORT extern "C" __attribute__((visibility("default")))

VF_EXPORT void vf_clear()
{
    auto &g = grpc::internal::global();
    std::lock_guard lock(g.mutex);
    g.faults.clear();
    g.random_delay_us = 0;
    g.address_delay_us.clear();
    g.take_delay_us.store(0, std::memory_order_relaxed);
}

VF_EXPORT void vf_reset_counters()
{
    auto &g = grpc::internal::global();
    std::lock_guard lock(g.mutex);
    g.method_calls.clear();
    g.method_faults.clear();
    g.calls = g.max_delivered_sequence = 0;
    g.delivered = g.injected = g.unreachable = g.inversions = 0;
    g.max_in_flight = g.in_flight;
    g.largest_request = g.largest_reply = 0;
    g.channel_log = nlohmann::json::array();
    g.server_log = nlohmann::json::array();
}

VF_EXPORT void vf_random_delay(int64_t max_us, uint64_t seed)
{
    auto &g = grpc::internal::global();
    std::lock_guard lock(g.mutex);
    g.random_delay_us = max_us;
    g.random.seed(seed);
}

VF_EXPORT void vf_take_delay(int64_t max_us)
{
    grpc::internal::global().take_delay_us.store(max_us, std::memory_order_relaxed);
}

VF_EXPORT void vf_address_delay(const char *address, int64_t us)
{
    auto &g = grpc::internal::global();
    std::lock_guard lock(g.mutex);
    g.address_delay_us[grpc::internal::port_of(address)] = us;
}

VF_EXPORT void vf_fault(const char *address, const char *method, int64_t skip, int64_t count, int code, int phase)
{
    auto &g = grpc::internal::global();
    std::lock_guard lock(g.mutex);
    g.faults.push_back(grpc::internal::Fault{address, method, skip, count, code, phase});
}

VF_EXPORT int64_t vf_in_flight()
{
    auto &g = grpc::internal::global();
    std::lock_guard lock(g.mutex);
    return int64_t(g.in_flight);
}

// Writes a JSON description of what the transport saw, returns the number of bytes needed.
VF_EXPORT size_t vf_dump(char *buffer, size_t size)
{
    auto &g = grpc::internal::global();
    std::lock_guard lock(g.mutex);
    nlohmann::json res = {{"calls", g.calls},
                          {"delivered", g.delivered},
                          {"injected", g.injected},
                          {"unreachable", g.unreachable},
                          {"inversions", g.inversions},
                          {"in_flight", g.in_flight},
                          {"max_in_flight", g.max_in_flight},
                          {"largest_request", g.largest_request},
                          {"largest_reply", g.largest_reply},
                          {"method_calls", g.method_calls},
                          {"method_faults", g.method_faults},
                          {"channels", g.channel_log},
                          {"servers", g.server_log}};
    auto text = res.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
    if (buffer != nullptr && size > text.size())
    {
        std::memcpy(buffer, text.c_str(), text.size() + 1);
    }
    return text.size() + 1;
}
