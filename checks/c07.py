from session import main  # noqa
