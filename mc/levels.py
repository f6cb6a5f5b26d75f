"""Stacks of transforms: running a Python body under a given nesting of transforms."""
import jax
import jax.numpy as jnp
import nnx


class Carrier(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(jnp.float32(1.0))


# name -> (opens a new trace level, runner(body, received) )
# body(received_module_or_None) is called inside.

def _jax_jit(body):
  jax.jit(lambda x: (body(None), x)[1])(jnp.float32(0))


def _eval_shape(body):
  jax.eval_shape(lambda x: (body(None), x)[1], jnp.float32(0))


def _lax_scan(body):
  jax.lax.scan(lambda c, x: (body(None), (c, x))[1], jnp.float32(0), jnp.arange(2.0))


def _checkpoint(body):
  jax.checkpoint(lambda x: (body(None), x)[1])(jnp.float32(0))


def _vmap(body):
  jax.vmap(lambda x: (body(None), x)[1])(jnp.arange(2.0))


def _jax_grad(body):
  jax.grad(lambda x: (body(None), x)[1])(1.0)


def _nnx_jit(body):
  nnx.jit(lambda m, x: (body(m), x)[1])(Carrier(), jnp.float32(0))


def _nnx_jit_noargs(body):
  nnx.jit(lambda m: (body(m), 0)[1], stateful=False)(Carrier())


def _nnx_grad(body):
  nnx.grad(lambda m: (body(m), m.w)[1])(Carrier())


def _nnx_grad_none(body):
  """Nothing is selected: there is nothing to trace."""
  nnx.grad(lambda m: (body(m), jnp.float32(0))[1], wrt=nnx.Cache)(Carrier())


def _nnx_grad_aux(body):
  nnx.grad(lambda m, x: (body(m), (m.w * x, x))[1], has_aux=True, stateful=False)(Carrier(), 2.0)


def _nnx_remat(body):
  nnx.remat(lambda m, x: (body(m), x)[1])(Carrier(), jnp.float32(0))


def _nnx_scan(body):
  nnx.scan(lambda m, c, x: (body(m), (c, x))[1])(Carrier(), jnp.float32(0), jnp.arange(2.0))


def _cond(body):
  jax.lax.cond(True, lambda x: (body(None), x)[1], lambda x: x, jnp.float32(0))


TRANSFORMS = {
    "jax.jit": (True, _jax_jit), "nnx.jit": (True, _nnx_jit), "nnx.jit0": (True, _nnx_jit_noargs),
    "nnx.grad": (True, _nnx_grad), "nnx.grad_aux": (True, _nnx_grad_aux), "nnx.remat": (True, _nnx_remat),
    "nnx.scan": (True, _nnx_scan), "nnx.grad none": (False, _nnx_grad_none), "eval_shape": (True, _eval_shape), "lax.scan": (True, _lax_scan),
    "checkpoint": (True, _checkpoint), "cond": (True, _cond),
    "vmap": (False, _vmap), "jax.grad": (False, _jax_grad),
}
