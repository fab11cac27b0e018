"""C07: flow runs (mode crash of spec FlowRun)."""
import flow_common


def run(chk):
    flow_common.run(chk, 'crash')
