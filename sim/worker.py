"""Entry point of the interpreter processes that execute runs."""

from .harness import worker_loop

worker_loop()
