"""Generate service.grpc.pb.h on top of fake_grpc.h from a compiled descriptor set.

Usage: gen_grpc.py descriptor_set proto_header output
"""
import sys

from google.protobuf import descriptor_pb2


def cpp(name):
    return "::" + name.lstrip(".").replace(".", "::")


def main():
    desc, header, out = sys.argv[1:4]
    fds = descriptor_pb2.FileDescriptorSet()
    with open(desc, "rb") as f:
        fds.ParseFromString(f.read())
    w = []
    w.append("#pragma once\n")
    w.append('#include "fake_grpc.h"\n#include "%s"\n' % header)
    for fd in fds.file:
        ns = fd.package.split(".") if fd.package else []
        for n in ns:
            w.append("namespace %s {\n" % n)
        for s in fd.service:
            w.append("class %s final {\n public:\n" % s.name)
            full = {m.name: "/%s/%s" % (".".join(ns + [s.name]), m.name) for m in s.method}
            w.append(" class Service : public grpc::Service {\n  public:\n   virtual ~Service() = default;\n")
            for m in s.method:
                w.append(
                    '   virtual ::grpc::Status %s(::grpc::ServerContext*, const %s*, %s*) { return ::grpc::Status(::grpc::StatusCode::UNIMPLEMENTED, ""); }\n'
                    % (m.name, cpp(m.input_type), cpp(m.output_type))
                )
            w.append(" };\n class AsyncService : public Service {\n  public:\n   AsyncService() {\n")
            for m in s.method:
                w.append('    verif_impl()->methods["%s"];\n' % full[m.name])
            w.append("   }\n")
            for m in s.method:
                w.append(
                    "   void Request%s(::grpc::ServerContext*, %s* request, ::grpc::ServerAsyncResponseWriter<%s>* response, ::grpc::CompletionQueue*, ::grpc::ServerCompletionQueue* cq, void* tag) {\n"
                    % (m.name, cpp(m.input_type), cpp(m.output_type))
                )
                w.append(
                    '    auto queue = cq->verif_impl();\n    verif_impl()->request("%s", ::grpc::internal::PendingRequest{[request, response, queue](std::shared_ptr<::grpc::internal::ServerCall> call) { request->ParseFromString(call->request); response->verif_bind(std::move(call), queue); }, queue, tag});\n   }\n'
                    % full[m.name]
                )
            w.append(" };\n class StubInterface { public: virtual ~StubInterface() = default; };\n")
            w.append(" class Stub final : public StubInterface {\n  public:\n")
            w.append("   explicit Stub(std::shared_ptr<::grpc::Channel> channel) : m_channel(std::move(channel)) {}\n")
            for m in s.method:
                i, o = cpp(m.input_type), cpp(m.output_type)
                w.append(
                    "   std::unique_ptr<::grpc::ClientAsyncResponseReader<%s>> PrepareAsync%s(::grpc::ClientContext*, const %s& request, ::grpc::CompletionQueue* cq) {\n"
                    '    return std::make_unique<::grpc::ClientAsyncResponseReader<%s>>(m_channel->m_impl, "%s", request.SerializeAsString(), cq->verif_impl());\n   }\n'
                    % (o, m.name, i, o, full[m.name])
                )
                w.append(
                    "   std::unique_ptr<::grpc::ClientAsyncResponseReader<%s>> Async%s(::grpc::ClientContext* context, const %s& request, ::grpc::CompletionQueue* cq) {\n"
                    "    auto reader = PrepareAsync%s(context, request, cq);\n    reader->StartCall();\n    return reader;\n   }\n"
                    % (o, m.name, i, m.name)
                )
                w.append(
                    "   ::grpc::Status %s(::grpc::ClientContext* context, const %s& request, %s* reply) {\n"
                    "    ::grpc::CompletionQueue cq;\n    ::grpc::Status status;\n    auto reader = Async%s(context, request, &cq);\n"
                    "    reader->Finish(reply, &status, nullptr);\n    void* tag;\n    bool ok;\n    cq.Next(&tag, &ok);\n    return status;\n   }\n"
                    % (m.name, i, o, m.name)
                )
            w.append("  private:\n   std::shared_ptr<::grpc::Channel> m_channel;\n };\n")
            w.append(
                " static std::unique_ptr<Stub> NewStub(const std::shared_ptr<::grpc::Channel>& channel) { return std::make_unique<Stub>(channel); }\n"
            )
            w.append("};\n")
        for n in reversed(ns):
            w.append("} // namespace %s\n" % n)
    with open(out, "w") as f:
        f.write("".join(w))


if __name__ == "__main__":
    main()
