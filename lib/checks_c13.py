"""C13: progressive calls: each connection gets its own updates in order until done or cancelled."""
import callcheck

def run(c):
    callcheck.run(c, "prpc", "MCCallsProgQuick.cfg" if c.quick else "MCCallsProg.cfg")
