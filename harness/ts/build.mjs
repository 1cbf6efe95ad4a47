// build.mjs SRC OUT: bundles the TypeScript client in SRC together with the stand-ins and the server beside this file.
import { createRequire } from 'node:module';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
const require = createRequire('/opt/veriftools/node/node_modules/');
const esbuild = require('esbuild');
const here = path.dirname(fileURLToPath(import.meta.url));
const [src, out] = process.argv.slice(2);
const at = (f) => path.join(here, 'shims', f);
const names = [
  [/^@coral-xyz\/anchor\/dist\/cjs\/nodewallet$/, at('nodewallet.ts')],
  [/^@(coral-xyz|project-serum)\/anchor(\/.*)?$/, at('anchor.ts')],
  [/^@solana\/web3\.js$/, at('web3.ts')],
  [/^@solana\/spl-token$/, at('spltoken.ts')],
  [/^bn\.js$/, at('bn.ts')],
  [/^big\.js$/, at('big.ts')],
  [/^openbook-client(\/.*)?$/, null],
];
await esbuild.build({
  entryPoints: [path.join(here, 'server.ts')],
  bundle: true,
  platform: 'node',
  format: 'cjs',
  target: 'node18',
  outfile: out,
  logLevel: 'error',
  tsconfigRaw: '{}',
  plugins: [
    {
      name: 'stand-ins',
      setup(b) {
        for (const [filter, p] of names)
          b.onResolve({ filter }, (a) => ({ path: p ?? path.join(src, a.path.replace(/^openbook-client\/?/, '') || 'index.ts') }));
      },
    },
  ],
});
