"""C05: flow runs (mode run of spec FlowRun)."""
import flow_common


def run(chk):
    flow_common.run(chk, 'run')
