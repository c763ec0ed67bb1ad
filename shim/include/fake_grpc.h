// In-process stand-in for the part of gRPC C++ that an asynchronous unary service uses.
// Messages are serialised to bytes and parsed again, replies can be delayed, reordered or replaced by
// errors through the control functions at the end of the file. Nothing touches the network.
#pragma once

#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

#define GPR_ASSERT(x)                                                                                                  \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(x))                                                                                                      \
        {                                                                                                              \
            std::fprintf(stderr, "GPR_ASSERT failed: %s\n", #x);                                                       \
            std::abort();                                                                                              \
        }                                                                                                              \
    } while (0)

#define GRPC_ARG_MAX_RECEIVE_MESSAGE_LENGTH "grpc.max_receive_message_length"
#define GRPC_ARG_MAX_SEND_MESSAGE_LENGTH "grpc.max_send_message_length"
#define GRPC_ARG_SERVICE_CONFIG "grpc.service_config"
#define GRPC_SSL_TARGET_NAME_OVERRIDE_ARG "grpc.ssl_target_name_override"

namespace grpc
{

enum StatusCode
{
    OK = 0,
    CANCELLED = 1,
    UNKNOWN = 2,
    INVALID_ARGUMENT = 3,
    DEADLINE_EXCEEDED = 4,
    NOT_FOUND = 5,
    ALREADY_EXISTS = 6,
    PERMISSION_DENIED = 7,
    RESOURCE_EXHAUSTED = 8,
    FAILED_PRECONDITION = 9,
    ABORTED = 10,
    OUT_OF_RANGE = 11,
    UNIMPLEMENTED = 12,
    INTERNAL = 13,
    UNAVAILABLE = 14,
    DATA_LOSS = 15,
    UNAUTHENTICATED = 16,
};

class Status
{
  public:
    Status() : m_code(StatusCode::OK)
    {
    }
    Status(StatusCode code, std::string message) : m_code(code), m_message(std::move(message))
    {
    }
    Status(StatusCode code, std::string message, std::string details)
        : m_code(code), m_message(std::move(message)), m_details(std::move(details))
    {
    }
    static const Status OK;
    static const Status CANCELLED;

    bool ok() const
    {
        return m_code == StatusCode::OK;
    }
    StatusCode error_code() const
    {
        return m_code;
    }
    std::string error_message() const
    {
        return m_message;
    }
    std::string error_details() const
    {
        return m_details;
    }
    void IgnoreError() const
    {
    }

  private:
    StatusCode m_code;
    std::string m_message;
    std::string m_details;
};

class ClientContext
{
  public:
    ClientContext() = default;
    ClientContext(const ClientContext &) = delete;
    ClientContext &operator=(const ClientContext &) = delete;
    template <typename T> void set_deadline(const T &)
    {
    }
    void set_wait_for_ready(bool)
    {
    }
    void AddMetadata(const std::string &, const std::string &)
    {
    }
    void TryCancel()
    {
    }
};

class ServerContext
{
  public:
    ServerContext() = default;
    ServerContext(const ServerContext &) = delete;
    ServerContext &operator=(const ServerContext &) = delete;
    bool IsCancelled() const
    {
        return false;
    }
    std::string peer() const
    {
        return "inproc";
    }
};

namespace internal
{

struct Event
{
    void *tag;
    bool ok;
    // Executed by the thread that takes the event out of the queue, like gRPC does with deserialisation.
    std::function<void()> finalize;
};

class QueueImpl
{
  public:
    void begin_op();
    void push(Event event);
    // 0: shut down, 1: event, 2: timeout
    int next(void **tag, bool *ok, const std::chrono::steady_clock::time_point *deadline);
    void shutdown();

  private:
    std::mutex m_mutex;
    std::condition_variable m_cv;
    std::deque<Event> m_events;
    size_t m_pending = 0;
    bool m_shutdown = false;
};

// Client side of a call.
struct CallState
{
    std::string method;
    std::string address;
    uint64_t sequence = 0;
    std::shared_ptr<QueueImpl> queue;
    int64_t max_receive = -1;

    std::mutex mutex;
    bool completed = false;
    bool finish_requested = false;
    Status status;
    std::string payload;
    Event event{};
};

class ServerImpl;

// Server side of a call.
struct ServerCall
{
    std::shared_ptr<CallState> client;
    std::string request;
    std::shared_ptr<ServerImpl> server;
    int reply_fault = 0;
    bool answered = false;
};

struct PendingRequest
{
    std::function<void(std::shared_ptr<ServerCall>)> bind;
    std::shared_ptr<QueueImpl> queue;
    void *tag;
};

struct MethodQueue
{
    std::deque<PendingRequest> requests;
    std::deque<std::shared_ptr<ServerCall>> calls;
};

class ServiceImpl
{
  public:
    std::mutex mutex;
    std::map<std::string, MethodQueue> methods;
    std::shared_ptr<ServerImpl> server;
    bool down = false;
    size_t active = 0;
    std::condition_variable idle;

    void request(const std::string &method, PendingRequest request);
    void incoming(std::shared_ptr<ServerCall> call);
    void stop();
    void finished();
};

void start_call(const std::shared_ptr<class ChannelImpl> &channel, const std::string &method, std::string request,
                std::shared_ptr<CallState> state);
void request_finish(std::shared_ptr<CallState> state, Event event);
void server_finish(std::shared_ptr<ServerCall> call, Status status, std::string payload);

} // namespace internal

class CompletionQueue
{
  public:
    CompletionQueue() : m_impl(std::make_shared<internal::QueueImpl>())
    {
    }
    CompletionQueue(const CompletionQueue &) = delete;
    CompletionQueue &operator=(const CompletionQueue &) = delete;
    virtual ~CompletionQueue() = default;

    enum NextStatus
    {
        SHUTDOWN,
        GOT_EVENT,
        TIMEOUT
    };

    bool Next(void **tag, bool *ok)
    {
        return m_impl->next(tag, ok, nullptr) == 1;
    }

    template <typename Clock, typename Duration>
    NextStatus AsyncNext(void **tag, bool *ok, const std::chrono::time_point<Clock, Duration> &deadline)
    {
        auto when = std::chrono::steady_clock::now() +
                    std::chrono::duration_cast<std::chrono::steady_clock::duration>(deadline - Clock::now());
        int res = m_impl->next(tag, ok, &when);
        return res == 0 ? SHUTDOWN : (res == 1 ? GOT_EVENT : TIMEOUT);
    }

    void Shutdown()
    {
        m_impl->shutdown();
    }

    std::shared_ptr<internal::QueueImpl> verif_impl() const
    {
        return m_impl;
    }

  private:
    std::shared_ptr<internal::QueueImpl> m_impl;
};

class ServerCompletionQueue : public CompletionQueue
{
};

class ChannelArguments
{
  public:
    void SetMaxReceiveMessageSize(int size)
    {
        SetInt(GRPC_ARG_MAX_RECEIVE_MESSAGE_LENGTH, size);
    }
    void SetMaxSendMessageSize(int size)
    {
        SetInt(GRPC_ARG_MAX_SEND_MESSAGE_LENGTH, size);
    }
    void SetInt(const std::string &key, int value)
    {
        m_ints[key] = value;
    }
    void SetString(const std::string &key, const std::string &value)
    {
        m_strings[key] = value;
    }
    void SetSslTargetNameOverride(const std::string &name)
    {
        SetString(GRPC_SSL_TARGET_NAME_OVERRIDE_ARG, name);
    }
    void SetServiceConfigJSON(const std::string &config)
    {
        SetString(GRPC_ARG_SERVICE_CONFIG, config);
    }
    void SetLoadBalancingPolicyName(const std::string &name)
    {
        SetString("grpc.lb_policy_name", name);
    }

    std::map<std::string, int> m_ints;
    std::map<std::string, std::string> m_strings;
};

struct SslCredentialsOptions
{
    std::string pem_root_certs;
    std::string pem_private_key;
    std::string pem_cert_chain;
};

class ChannelCredentials
{
  public:
    bool secure = false;
    SslCredentialsOptions options;
};

std::shared_ptr<ChannelCredentials> InsecureChannelCredentials();
std::shared_ptr<ChannelCredentials> SslCredentials(const SslCredentialsOptions &options);

struct SslServerCredentialsOptions
{
    struct PemKeyCertPair
    {
        std::string private_key;
        std::string cert_chain;
    };
    std::string pem_root_certs;
    std::vector<PemKeyCertPair> pem_key_cert_pairs;
    bool force_client_auth = false;
};

class ServerCredentials
{
  public:
    bool secure = false;
    SslServerCredentialsOptions options;
};

std::shared_ptr<ServerCredentials> InsecureServerCredentials();
std::shared_ptr<ServerCredentials> SslServerCredentials(const SslServerCredentialsOptions &options);

class ChannelInterface
{
  public:
    virtual ~ChannelInterface() = default;
};

class Channel : public ChannelInterface
{
  public:
    explicit Channel(std::shared_ptr<internal::ChannelImpl> impl) : m_impl(std::move(impl))
    {
    }
    std::shared_ptr<internal::ChannelImpl> m_impl;
};

std::shared_ptr<Channel> CreateCustomChannel(const std::string &target,
                                             const std::shared_ptr<ChannelCredentials> &creds,
                                             const ChannelArguments &args);
std::shared_ptr<Channel> CreateChannel(const std::string &target, const std::shared_ptr<ChannelCredentials> &creds);

template <typename Reply> class ClientAsyncResponseReader
{
  public:
    ClientAsyncResponseReader(std::shared_ptr<internal::ChannelImpl> channel, std::string method, std::string request,
                              std::shared_ptr<internal::QueueImpl> queue)
        : m_channel(std::move(channel)), m_method(std::move(method)), m_request(std::move(request)),
          m_state(std::make_shared<internal::CallState>())
    {
        m_state->method = m_method;
        m_state->queue = std::move(queue);
    }

    void StartCall()
    {
        internal::start_call(m_channel, m_method, std::move(m_request), m_state);
    }

    void Finish(Reply *reply, Status *status, void *tag)
    {
        auto *state = m_state.get();
        auto keep = m_state;
        // The lambda breaks its own cycle when it is taken out of the queue.
        internal::Event event{tag, true, [keep, state, reply, status]() {
                                  Status result = state->status;
                                  if (result.ok() && !reply->ParseFromString(state->payload))
                                  {
                                      result = Status(StatusCode::INTERNAL, "can not parse reply");
                                  }
                                  *status = result;
                              }};
        internal::request_finish(m_state, std::move(event));
    }

  private:
    std::shared_ptr<internal::ChannelImpl> m_channel;
    std::string m_method;
    std::string m_request;
    std::shared_ptr<internal::CallState> m_state;
};

template <typename T> class ClientReader
{
};
template <typename T> class ClientWriter
{
};
template <typename T, typename U> class ClientReaderWriter
{
};

template <typename Reply> class ServerAsyncResponseWriter
{
  public:
    explicit ServerAsyncResponseWriter(ServerContext *)
    {
    }

    void Finish(const Reply &reply, const Status &status, void *tag)
    {
        finish(status, status.ok() ? reply.SerializeAsString() : std::string(), tag);
    }

    void FinishWithError(const Status &status, void *tag)
    {
        finish(status, std::string(), tag);
    }

    void verif_bind(std::shared_ptr<internal::ServerCall> call, std::shared_ptr<internal::QueueImpl> queue)
    {
        m_call = std::move(call);
        m_queue = std::move(queue);
    }

  private:
    void finish(const Status &status, std::string payload, void *tag)
    {
        // The object may be deleted by the owner of the queue as soon as the event is there.
        auto call = std::move(m_call);
        auto queue = std::move(m_queue);
        queue->begin_op();
        internal::server_finish(std::move(call), status, std::move(payload));
        queue->push(internal::Event{tag, true, nullptr});
    }

    std::shared_ptr<internal::ServerCall> m_call;
    std::shared_ptr<internal::QueueImpl> m_queue;
};

class Service
{
  public:
    Service() : m_impl(std::make_shared<internal::ServiceImpl>())
    {
    }
    virtual ~Service() = default;
    std::shared_ptr<internal::ServiceImpl> verif_impl() const
    {
        return m_impl;
    }

  private:
    std::shared_ptr<internal::ServiceImpl> m_impl;
};

class Server
{
  public:
    explicit Server(std::shared_ptr<internal::ServerImpl> impl);
    ~Server();
    void Shutdown();
    template <typename T> void Shutdown(const T &)
    {
        Shutdown();
    }
    void Wait();
    std::shared_ptr<Channel> InProcessChannel(const ChannelArguments &args);

  private:
    std::shared_ptr<internal::ServerImpl> m_impl;
};

class ServerBuilder
{
  public:
    ServerBuilder();
    ServerBuilder &SetMaxReceiveMessageSize(int size);
    ServerBuilder &SetMaxSendMessageSize(int size);
    ServerBuilder &SetMaxMessageSize(int size);
    ServerBuilder &AddListeningPort(const std::string &address, std::shared_ptr<ServerCredentials> creds,
                                    int *selected_port = nullptr);
    ServerBuilder &RegisterService(Service *service);
    template <typename T> ServerBuilder &AddChannelArgument(const std::string &, const T &)
    {
        return *this;
    }
    std::unique_ptr<ServerCompletionQueue> AddCompletionQueue(bool is_frequently_polled = true);
    std::unique_ptr<Server> BuildAndStart();

  private:
    std::shared_ptr<internal::ServerImpl> m_impl;
};

void EnableDefaultHealthCheckService(bool enable);

} // namespace grpc
