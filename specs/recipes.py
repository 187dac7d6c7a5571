P = {k: dict(python='pyrecipes', harnesses=[]) for k in ('C28', 'C29', 'C34')}
