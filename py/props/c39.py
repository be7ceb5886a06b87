"""Deadlines, timers and signals."""
RULE = "generated clock and signal histories; oracle: arithmetic on the generated clock and a stack of signals"
def g(name, n, rule, **k): return dict(name=name, n=n, rule=rule, **k)
S = dict(src="u_signal.cpp", srcs=["utility/callbacks.cpp", "utility/signal_handler.cpp"], drop=["-fsanitize=address,undefined"])
CPP = [
    g("clock_callback", (10000, 100000), "several callbacks and times", **S), g("timer", (10000, 100000), "more than four steps", **S), g("signals", (5000, 40000), "at least two signals", **S),
]
