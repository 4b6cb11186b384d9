"""C12: remote procedure calls: every reply reaches its own requester, once."""
import callcheck

def run(c):
    callcheck.run(c, "rpc", "MCCallsQuick.cfg" if c.quick else "MCCalls.cfg")
