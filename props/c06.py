"""C06: messages keep their boundaries on every transport."""
from gv import engine, wire

LEVEL = "other"
RULE = ("the bytes of one message followed through every path of every receiving and sending operation with linear inequalities: on a stream "
        "exactly the header and then exactly the announced rest is read, each part behind the previous one, waiting once a message has begun; "
        "success means all announced bytes are there, position and size are those of the message; a message that fits is never refused, one "
        "that was begun and can not be completed ends the connection (EFAULT / a connection error); truncated packets are not delivered, complete ones are never refused; "
        "sending hands over exactly the rest of the message until everything is sent, under the sending lock of the connection, without raising "
        "a signal, and reports success exactly if everything was sent")


def receivers(mod):
    out = []
    for st, f, role in (("server_link_ops", "recv_client", "recv_client"), ("server_link_ops", "recv", "recv"),
                        ("client_link_ops", "recv", "client")):
        for fn in wire.slots(mod, st, f):
            out.append((fn, role))
    return out


def senders(mod):
    out = []
    for st, f, role in (("server_link_ops", "send_client", "send_client"), ("server_link_ops", "send", "send"),
                        ("client_link_ops", "send", "client")):
        for fn in wire.slots(mod, st, f):
            out.append((fn, role))
    return out


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    rs, ss = receivers(mod), senders(mod)
    ctx.need(len(rs) >= 3 and len(ss) >= 3, "the link operations are not found")
    for fn, role in rs:
        m = wire.Recv(fn, counts, role, False, True)
        ctx.run(lambda f: m, [fn], seed=m.seed)
    for fn, role in ss:
        m = wire.Send(mod, counts, role)
        ctx.run(lambda f: m, [fn], seed=m.seed)
    for k in ("receive operation", "delivered message", "refused message", "send operation", "outcome of sending"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
