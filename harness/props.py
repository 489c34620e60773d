import simple
ALL = simple.ALL
try:
    import text
    ALL = ALL + text.ALL
    import cross
    ALL = ALL + cross.ALL
except ModuleNotFoundError as e:
    if e.name not in ('text', 'cross'):
        raise
