#!/usr/bin/env python3
"""Writes known_findings.txt: repaired defects (from /repo's fix commits) and the open findings below."""
import subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {  # subject -> (properties, what failed)
 "unlink removes both sides of a link": ("C03", "unlink removed only one side, the other process still got the link signal"),
 "linking to a process that does not exist leaves no link behind": ("C03", "link to a dead process left an entry in the link table"),
 "unalias only deactivates aliases of the calling process": ("C08", "unalias deactivated an alias of another process"),
 "demonitor discards a down message that was already looked at": ("C05", "a ProcessDown already popped by a selective receive was still received after demonitor"),
 "demonitor ends the alias of a named monitor that was not resolved yet": ("C05", "the alias of a named monitor of a remote process stayed active after demonitor"),
 "destroying a monitor of a remote process reaches the node of that process": ("C05", "demonitor of a remote process acted on the local monitor table and sent no frame"),
 "a monitor down frame only ends the alias of a monitor installed for that node": ("C22", "a monitor down frame naming any reference deactivated that alias"),
 "a link down frame consumes the link of the local process": ("C22", "a link down frame left the local link in place, so it fired again"),
 "keep the process registered for the duration of process_exists_lock": ("C03", "the registry guard was dropped before the callback ran"),
 "a process is registered before it runs": ("C27", "on a multi threaded runtime a process could run before it was registered (alive() false, Drop panicked)"),
 "AllSignificant shuts down when no significant child is running anymore": ("C12", "AllSignificant shut down while significant children were running and not when the last ended"),
 "the id of an ignored temporary child can be used again": ("C15", "the id of a temporary child whose start returned ignore stayed taken"),
 "terminating a temporary child removes its specification": ("C15", "terminate_child left the specification of a temporary child behind"),
 "temporary children are not restarted by a restart of their siblings": ("C14", "rest_for_one/one_for_all started temporary siblings again"),
 "terminating a child that is waiting to be restarted cancels the restart": ("C14", "a terminated child that was waiting for a retry was started again"),
 "a restart that is no longer needed does not count towards the restart intensity": ("C13", "a retry of a child that was running again counted as restart"),
 "a child that could not be restarted yet is not reported as running": ("C15", "which_children reported the old pid of a child whose restart failed"),
 "a process that is already exiting keeps its exit reason": ("C01", "a second exit signal replaced the reason of a process that had already been terminated"),
 # later ones are appended here
}
try:
    from findings_more import MORE, OPEN
except ImportError:
    MORE, OPEN = {}, []
P.update(MORE)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p, w = P[s[5:]]
        out.append(f"fixed: property={p} {h} {w}")
for p, k, w in OPEN:
    out.append(f"open: property={p} key={k} {w}")
open(os.path.join(H, "known_findings.txt"), "w").write("\n".join(out) + "\n")
