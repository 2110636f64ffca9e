"""Which harness decides which property, and how it is built."""
ASAN = ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-fno-builtin-memcmp"]
VARIANTS = {
    # the library with AddressSanitizer, assertions on, portable code paths
    "asan": {"lib": ASAN, "harness": ASAN, "link": ["-fsanitize=address", "-g", "-rdynamic"]},
    # the same with the SSE4.2 code paths a production build (-march=native) uses
    "asan-sse": {"lib": ASAN + ["-msse4.2"], "harness": ASAN, "link": ["-fsanitize=address", "-g", "-rdynamic"], "cpu": ["sse4_2"]},
    # optimised, for exhaustive enumeration of flat value ranges
    "fast": {"lib": ["-O2", "-g"], "harness": ["-O2", "-g"], "link": ["-g", "-rdynamic"]},
}
# the library under the controlled scheduler: instrumented memory accesses, renamed thread and allocation functions
RENAMED = """malloc calloc realloc free strdup strndup memcpy memmove memset pthread_create pthread_join pthread_tryjoin_np pthread_detach pthread_cancel pthread_kill
pthread_exit pthread_self pthread_equal pthread_setcancelstate pthread_setcanceltype pthread_testcancel pthread_mutex_init pthread_mutex_destroy
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_signal pthread_cond_broadcast
pthread_cond_wait sched_yield usleep nanosleep""".split()
VARIANTS["sched"] = {"lib": ["-g", "-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-fno-builtin"] + ["-D%s=sched_%s" % (n, n) for n in RENAMED],
                     "harness": ["-g", "-O1"], "link": ["-g", "-rdynamic"]}
LIBS = ["-lssl", "-lcrypto", "-lm"]
ENGINE = ["engine/mc.c"]
SCHED = ["engine/mc.c", "engine/sim.c", "engine/msched.c"]
SIM = ["engine/mc.c", "engine/sim.c"]


def unit(src, variant="asan", base=SIM, **kw):
    return dict(src=list(base) + ["checks/" + s for s in ([src] if isinstance(src, str) else src)], variant=variant, **kw)


PROPS = {
    "C01": {"units": [unit("h_core.c")]},
    "C02": {"units": [unit("h_core.c")]},
    "C03": {"units": [unit("h_core.c")]},
    "C04": {"units": [unit("h_core.c")]},
    "C05": {"units": [unit("h_threads.c", "sched", SCHED, tag="sched")]},
    "C21": {"units": [unit("h_cont.c", base=ENGINE)]},
    "C22": {"units": [unit("h_cont.c", base=ENGINE)]},
    "C23": {"units": [unit("h_cont.c", base=ENGINE)]},
    "C24": {"units": [unit("h_cont.c", base=ENGINE)]},
    "C25": {"units": [unit("h_string.c")]},
    "C26": {"units": [unit("h_string.c")]},
    "C28": {"units": [unit("h_num.c", "fast", ENGINE)]},
    "C29": {"units": [unit("h_num.c", "asan", ENGINE)]},
    "C27": {"units": [unit("h_cont.c", base=ENGINE)]},
    "C17": {"units": [unit("h_http.c"), unit("h_http.c", "asan-sse", tag="sse")]},
    "C18": {"units": [unit("h_http.c"), unit("h_http.c", "asan-sse", tag="sse")]},
    "C19": {"units": [unit("h_http.c")]},
    "C20": {"units": [unit("h_http.c")]},
    "C36": {"units": [unit("h_http.c")]},
    "C06": {"units": [unit("h_stream.c")]},
    "C07": {"units": [unit("h_stream.c")]},
    "C08": {"units": [unit("h_stream.c")]},
    "C09": {"units": [unit("h_stream.c")]},
    "C10": {"units": [unit("h_tls.c", tag="tls")]},
    "C11": {"units": [unit("h_stream.c"), unit("h_tls.c", tag="tls")]},
    "C30": {"units": [unit("h_event.c")]},
    "C31": {"units": [unit("h_event.c")]},
    "C32": {"units": [unit("h_event.c")]},
    "C12": {"units": [unit("h_server.c"), unit("h_server.c", "asan-sse", tag="sse", skip="tls")]},
    "C13": {"units": [unit("h_server.c")]},
    "C14": {"units": [unit("h_server.c"), unit("h_server.c", "asan-sse", tag="sse", skip="tls")]},
    "C15": {"units": [unit("h_server.c")]},
    "C16": {"units": [unit("h_server.c")]},
    "C33": {"units": [unit("h_async.c", "sched", SCHED, tag="sched")]},
    "C34": {"units": [unit("h_async.c", "sched", SCHED, tag="sched")]},
    "C35": {"units": [unit("h_net.c")]},
    "C37": {"units": [unit("h_e2e.c")]},
}
# single very long histories
for _p in "C01 C02 C03 C04 C06 C07 C08 C09 C11 C12 C13 C14 C15 C16 C30 C31 C32".split():
    PROPS[_p]["units"].append(unit("h_long.c", tag="long"))
for _p in "C10 C11 C12 C13".split():
    PROPS[_p]["units"].append(unit("h_longtls.c", tag="longtls"))
