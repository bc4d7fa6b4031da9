"""threads"""
from simple import define


def config(V):
    V.assumptions.add("pthread functions are used through the contracts written in harness/threading.cpp")


define(globals(), "threading", None, [("threads", 5, [], "random histories of threads, mutexes and guards with counted pthread calls and injected failures for the stated seconds",
       dict(repo=["pystd2026.cpp", "pystd2026_tables.cpp", "pystd_common.cpp", "pystd2026_threading.cpp"], libs=["-pthread"] + ["-Wl,--wrap=pthread_" + f for f in ("create", "join", "detach", "attr_init", "attr_destroy", "mutex_init", "mutex_destroy", "mutex_lock", "mutex_trylock", "mutex_unlock")]))],
       "Proved over the contracts of pthread: the whole life of a Thread (every sequence of up to three operations, and every single operation and the destructor from every state), of a Mutex, and LockGuard on any lockable and on Mutex, on normal and exceptional exits. Schedules enter through the contracts only: what another thread holds is arbitrary.", config=config, priv=True, budget=120, lib=("pystd2026_threading.cpp",))
