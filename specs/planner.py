# Reference denoising update, interpreted by the analyser (never executed).
import jax.numpy as jnp


def steering_reward(deltas, delta_max):
    """mean over the horizon of steering magnitude and steering rate terms"""
    total = 0.0
    H = len(deltas)
    for t in range(H):
        mag = 1.0 - deltas[t] ** 2
        if t == 0:
            rate = 1.0
        else:
            d = jnp.abs(deltas[t] * delta_max - deltas[t - 1] * delta_max) / (0.1 * delta_max)
            rate = 1.0 - jnp.minimum(d ** 2, 1.0)
        total = total + 0.5 * (mag + rate)
    return total / H


def schedule(beta0, betaT, n):
    abar, out = 1.0, []
    for k in range(n):
        b = beta0 if n == 1 else beta0 + (betaT - beta0) * k / (n - 1)
        abar = abar * (1.0 - b)
        out.append(abar)
    return out


def enforce(v, mp):
    if mp == 2:
        return jnp.clip(v, 0.0, 1.0)
    if mp == -2:
        return jnp.clip(v, -1.0, 0.0)
    return v


def candidate(ybar, eps, abar, i, mp):
    u = jnp.clip(eps * jnp.sqrt(1.0 - abar[i]) / jnp.sqrt(abar[i - 1]) + ybar, -1.0, 1.0)
    rows = [[enforce(u[t, 0], mp), u[t, 1]] for t in range(u.shape[0])]
    return jnp.array(rows)


def weights(rews, temp, demo, rew_demo):
    N = len(rews)
    mean = sum(rews) / N
    std = jnp.sqrt(sum([(r - mean) ** 2 for r in rews]) / N)
    std = jnp.where(std < 1e-4, 1.0, std)
    lp = [(r - mean) / std / temp for r in rews]
    if demo is not None:
        top = demo[0]
        for d in demo[1:]:
            top = jnp.maximum(top, d)
        ld = [(d - top + rew_demo - mean) / std / temp for d in demo]
        lp = [jnp.maximum(a, b) for a, b in zip(lp, ld)]
    m = lp[0]
    for a in lp[1:]:
        m = jnp.maximum(m, a)
    e = [jnp.exp(a - m) for a in lp]
    z = sum(e)
    return [x / z for x in e]


def denoise(ybar, noise, abar, N, mp, temp, rollout, steering_weight, delta_max, logpd, rew_demo):
    """noise: one (Nsample, Hsample, Nu) block per step, most noisy first"""
    hist = []
    for k in range(len(noise)):
        i = N - 1 - k
        rews, applied, demo = [], [], []
        for s in range(noise[k].shape[0]):
            y = candidate(ybar, noise[k][s], abar, i, mp)
            r, qs, us = rollout(y)
            r = r + steering_weight * steering_reward([us[t, 1] for t in range(us.shape[0])], delta_max)
            rews.append(r)
            applied.append(us)
            if logpd is not None:
                demo.append(logpd(qs))
        w = weights(rews, temp, demo if logpd is not None else None, rew_demo)
        ybar = sum([wi * ui for wi, ui in zip(w, applied)])
        hist.append(ybar)
    return ybar, hist
