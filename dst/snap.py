"""What a user can see of a model."""
import numpy as np


def _vec(x):
    return tuple(float(v) for v in np.ravel(x))


def snapshot(users):
    """definitions of users and appliances as exported, plus the theoretical maximum profiles"""
    out = []
    for u in users:
        if u.App_list:
            df = u.export_to_dataframe()
            out.append(df.to_json(orient="split", default_handler=str))
        out.append((u.user_name, u.num_users, u.user_preference, len(u.App_list)))
        out.append(_vec(u.maximum_profile))
        for a in u.App_list:
            out.append(_vec(a.maximum_profile))
            out.append(_vec(a.power))
    return out


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            x, y = str(x), str(y)
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
            return "...%s -> ...%s" % (x[max(0, i - 60):i + 60], y[max(0, i - 60):i + 60])
    return "different length" if len(a) != len(b) else None
