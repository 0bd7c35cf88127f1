"""Property id -> module of its monitors."""
import os

_dir = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
PROPERTIES = {f[:-3].upper(): f"rv.props.{f[:-3]}" for f in sorted(os.listdir(_dir))
              if len(f) == 6 and f[0] == "c" and f.endswith(".py")}
