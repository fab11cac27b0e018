"""C06: flow runs (mode cp of spec FlowRun)."""
import flow_common


def run(chk):
    flow_common.run(chk, 'cp')
