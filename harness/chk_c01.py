"""C01: node life cycle."""
import common
import drv_node


def run(chk):
    res = chk.explore('MC_NodeLife', env={'TIER': common.TIER})
    chk.replay(res.emitted['T'], drv_node.Driver, maxsteps=4000, label='node life cycle')
