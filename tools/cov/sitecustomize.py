"""Line coverage of VolterraBasis for tools/mutate.py: every line is appended once per process to $VB_COV."""
import os
import sys

_p = os.environ.get("VB_COV")
if _p:
    _fd = os.open(_p, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    _seen = set()

    def _line(frame, event, arg):
        if event == "line":
            k = (frame.f_code.co_filename, frame.f_lineno)
            if k not in _seen:
                _seen.add(k)
                os.write(_fd, ("%s:%d\n" % (k[0].split("VolterraBasis/")[-1], k[1])).encode())
        return _line

    def _call(frame, event, arg):
        f = frame.f_code.co_filename
        if "/VolterraBasis/" in f:
            return _line(frame, "line", arg) and _line
        return None

    sys.settrace(_call)
