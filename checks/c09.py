from mapping import main  # noqa
