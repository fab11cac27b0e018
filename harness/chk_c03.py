"""C03: flow runs (mode train of spec FlowRun)."""
import flow_common


def run(chk):
    flow_common.run(chk, 'train')
