PROPS = []

def P(id, title, statement, over, for_all, why, files, mech, tech=None, note=None, level='proof', na=None):
    d = dict(id=id, title=title, statement=statement, over=over, for_all=for_all, why=why, files=files, mech=mech, level=level)
    if na:
        d['na'] = na
    else:
        d['tech'] = tech
        d['note'] = note
    PROPS.append(d)

MUST = 'Sound for the facts it tracks: every control-flow path the SSA form has, through all call chains the call graph has. Trusts go/types, go/ssa, the VTA call graph and the named dependency APIs. '

P('B01', 'The broker admits only verified connections',
  'A connection is admitted to the message broker only when it presented a token signed by a key the broker trusts and proved possession of the private key for that very token by signing the broker\'s nonce, or it came over verified TLS, the in-process pipe or with correct system or provisioning credentials. The identity and keys recorded for the connection come from that verified token.',
  ['inputs', 'configurations', 'histories'],
  'every combination of credentials a client can present, every broker configuration and every order of checks',
  'Unit tests exercise a handful of credential combinations with hand-made mocks; one combination of unset keys, odd connection kinds or swallowed errors that is not sampled admits an attacker.',
  ['broker/network/choria_auth.go', 'broker/network/network.go'],
  [('Check', 'broker/network/choria_auth.go'), ('verifyNonceSignature', 'broker/network/choria_auth.go'), ('handleDefaultConnection', 'broker/network/choria_auth.go')],
  'path-sensitive interprocedural must-dataflow over SSA with argument provenance',
  MUST + 'Assumes ed25519 and JWT libraries verify what they claim.')

P('B02', 'System and provisioning accounts need their credentials',
  'A connection is placed in the broker\'s system account only when it presented the configured, non-empty system user and password and either verified TLS, mutual TLS being disabled, or a token granting system access. A connection is placed in the provisioning account as a provisioner only with the configured, non-empty provisioning user and password over TLS or a provisioner token.',
  ['inputs', 'configurations'],
  'every user name, password, token and connection kind, against every set of configured credentials including empty ones',
  'Tests cover a few right and wrong passwords; empty configured credentials, pipes, token-only and mixed transports multiply beyond them.',
  ['broker/network/choria_auth.go'],
  [('handleSystemAccount', 'broker/network/choria_auth.go'), ('handleProvisioningUserConnection', 'broker/network/choria_auth.go')],
  'path-sensitive interprocedural must-dataflow over SSA', MUST)

P('B03', 'Unprovisioned servers are isolated in the provisioning account',
  'A connection admitted only because it holds a provisioning token is placed in the provisioning account and limited to the subjects needed to be provisioned, for both publishing and subscribing. Nothing else grants it further subjects.',
  ['inputs', 'configurations'],
  'every provisioning token and connection kind, every broker configuration',
  'Tests assert the exact lists for one token; other branches and configurations that widen the lists or skip one of them are not sampled.',
  ['broker/network/choria_auth.go', 'broker/network/network.go'],
  [('handleUnverifiedProvisioningConnection', 'broker/network/choria_auth.go'), ('setProvisioningPermissions', 'broker/network/choria_auth.go')],
  'must-dataflow plus value-set analysis of the subjects that can reach permission lists', MUST)

P('B04', 'A connection may use only the subjects its token grants',
  'The subjects a token-authenticated client or server may publish and subscribe to are exactly those its token\'s claims grant, built from that token\'s own organisation, caller or identity and public key. Only organisation administrators get unrestricted access; broader lists given to fleet managers keep the other restrictions.',
  ['inputs', 'configurations'],
  'every combination of permissions and claims in client and server tokens',
  'There are more permission combinations than the table tests list, and a subject added on the wrong branch or built from the wrong claim passes them.',
  ['broker/network/choria_auth.go'],
  [('setClientTokenPermissions', 'broker/network/choria_auth.go'), ('setServerPermissions', 'broker/network/choria_auth.go')],
  'backwards value flow from permission lists to subject strings, with must-dataflow at each grant', MUST)

P('P01', 'Agents only act on verified, addressed and fresh requests',
  'A server hands a network request to an agent only when its signature was verified over the exact bytes the request is decoded from, the caller named in it is allowed by the presented credentials, its filter matches the server and it is within its time to live, unless verification was explicitly turned off. The request the agent receives is the very one these checks were made on.',
  ['inputs', 'configurations'],
  'every message from the network, every protocol version, security provider and configuration',
  'Tests drive single layers with mocks; the guarantee is about all paths through all layers, where one swallowed error or check made on another object lets unverified requests through.',
  ['server/processor.go', 'protocol/v1/security_request.go', 'protocol/v2/secure_request.go', 'choria/protocol.go', 'server/discovery/discovery.go'],
  [('handleRawMessage', 'server/processor.go'), ('Valid', 'protocol/v2/secure_request.go'), ('ShouldProcess', 'server/discovery/discovery.go')],
  'path-sensitive interprocedural must-dataflow over SSA with provenance of the verified bytes and the dispatched request',
  MUST + 'Assumes the security providers verify what they claim, which other properties decide.')

P('S01', 'Certificate security accepts only CA-verified, named, allowed callers',
  'With certificate based security a caller is accepted only when its very certificate verifies against the configured CA for client authentication and either carries the caller\'s name while that name is on the allow list, or carries a privileged name. A signature is accepted only when the RSA key in the presented certificate made it over the sha256 of exactly the data; data that cannot be decoded is rejected.',
  ['inputs', 'configurations'],
  'every certificate, chain, PEM content, caller name, signature and configured list',
  'Tests verify a few good and bad certificates; malformed PEM, unusual blocks, empty CA files, email names and privileged certificates are combinations they do not reach, and one accepting error path is an authentication bypass.',
  ['providers/security/filesec/file_security.go', 'providers/security/pkcs11sec/pkcs11_security.go', 'providers/security/puppetsec/puppet_security.go', 'providers/security/certmanager/certmanager_security.go'],
  [('VerifyCertificate', 'providers/security/filesec/file_security.go'), ('ShouldAllowCaller', 'providers/security/filesec/file_security.go'), ('VerifySignatureBytes', 'providers/security/filesec/file_security.go')],
  'must-dataflow over the returns of the verification methods, with argument provenance', MUST)

P('S02', 'Token security accepts only signatures by trusted, permitted tokens',
  'With token based security a signature is accepted only when made over exactly the data by the key in a token issued by a configured issuer or trusted signer: the caller\'s own server token or fleet management client token that does not demand delegation, or an authentication delegator\'s token presented with a trusted caller token that has fleet access. A caller is allowed only under the name in its own token, unless a delegator vouches for it.',
  ['inputs', 'configurations'],
  'every combination of tokens, permissions, issuers, trusted signers, signatures and names',
  'Tests cover single signers and common permission sets; loops over several signers, error paths that continue, absent permission blocks and mixed roles are not enumerated.',
  ['providers/security/choria/choria_security.go', 'internal/util/ed25519.go'],
  [('verifyByteSignatureByCaller', 'providers/security/choria/choria_security.go'), ('verifyByteSignatureByDelegation', 'providers/security/choria/choria_security.go'), ('ShouldAllowCaller', 'providers/security/choria/choria_security.go')],
  'path-sensitive must-dataflow over the returns of the verification methods, with token provenance', MUST)

P('A01', 'Agent actions run only authorized and audited, as the verified caller',
  'An agent runs an action only after the request was authorized for that agent and action and was recorded in the audit log, wherever authorization and auditing are enabled. The caller, sender, collective, age, filter and credentials that authorization, audit and the action see are those of the verified network request, whatever its payload claims.',
  ['inputs', 'configurations'],
  'every request payload, action, agent and combination of authorization and audit settings',
  'Tests run single mocked requests; a payload carrying its own caller fields, or an action reached without passing the checks, is not among them.',
  ['providers/agent/mcorpc/agent.go', 'providers/agent/mcorpc/mcorpc.go', 'providers/agent/mcorpc/audit/choria.go'],
  [('HandleMessage', 'providers/agent/mcorpc/agent.go'), ('parseIncomingMessage', 'providers/agent/mcorpc/agent.go'), ('AuthorizeRequest', 'providers/agent/mcorpc/agent.go')],
  'interprocedural must-dataflow to every action call, with request provenance', MUST)

P('A02', 'Authorization policies fail closed',
  'A request is authorized only by an explicit permission: an action policy line whose caller, action, facts and classes all match, or a default the policy or configuration sets; a Rego policy that evaluates to true; or the caller\'s own token listing the agent and action or carrying such a Rego policy. Missing, unreadable, invalid or failing policies deny, and the first matching policy line decides.',
  ['inputs', 'configurations'],
  'every request, policy file content, token, provider and setting',
  'Tests evaluate example policies; the parsers, loops and error paths accept far more inputs, and one of them granting by mistake is a privilege escalation.',
  ['providers/agent/mcorpc/authz_actionpolicy.go', 'providers/agent/mcorpc/authz_jwt.go', 'providers/agent/mcorpc/authz_rego.go', 'providers/agent/mcorpc/agent.go', 'opa/opa.go'],
  [('evaluatePolicy', 'providers/agent/mcorpc/authz_actionpolicy.go'), ('EvaluateAgentListPolicy', 'providers/agent/mcorpc/authz_jwt.go'), ('Evaluate', 'opa/opa.go')],
  'path-sensitive must-dataflow over all granting returns', MUST)

P('C01', 'No lock outlives the call that took it',
  'Whatever path a function takes, including its error paths, when it returns every lock it took is released, and it never releases a lock that is not held. No input, failure or early return leaves a component locked forever.',
  ['schedules', 'faults'],
  'every path through every function that uses a mutex, every error at every call',
  'Error paths between taking and releasing a lock are the ones tests rarely drive, and a leaked lock only shows when something later needs it.',
  ['providers/election/streams/election.go', 'server/agents/agents.go', 'choria/connection.go', 'aagent/machine/machine.go', 'internal/fs/client/requester.templ'],
  [('Start', 'providers/election/streams/election.go'), ('do', 'client/rpcutilclient/requester.go'), ('Publish', 'choria/connection.go')],
  'path-sensitive lock-state dataflow over SSA with function summaries',
  'Sound for mutexes named by access path in the type-checked packages; a panic is not a return.', level='proof')

P('C02', 'Components do not deadlock on their locks',
  'No goroutine locks a mutex it already holds, directly or through calls and callbacks, and any two kinds of lock are always taken in the same order. No schedule of requests, machine transitions, deletions and shutdowns leaves goroutines waiting on each other\'s locks forever.',
  ['schedules', 'histories'],
  'every interleaving of goroutines and every call chain that takes locks',
  'A deadlock needs one particular interleaving or call chain; tests that run components one at a time do not meet it.',
  ['aagent/machine/machine.go', 'aagent/aagent.go', 'aagent/watchers/watchers.go', 'providers/election/streams/election.go', 'server/agents/agents.go'],
  [('Delete', 'aagent/machine/machine.go'), ('Stop', 'providers/election/streams/election.go'), ('ManageMachines', 'aagent/aagent.go')],
  'interprocedural lock-set and lock-order graph analysis over SSA and the call graph',
  'Orders are between kinds of lock (struct fields); locks of objects made for each use (client requests, messages) are not ordered. Channel waits are not covered.', level='proof')

P('C03', 'Shared state is only touched under its lock',
  'Registries and state shared between goroutines (agents and their subscriptions, machines, watchers, timers, plugin and metric registries, token caches, statistics, elections, spools) are read and changed only while the lock that protects them is held. Concurrent use never sees half-made changes or crashes on concurrent map access.',
  ['schedules'],
  'every pair of concurrent operations on every shared object',
  'A missing lock only fails under one interleaving, which tests without the race detector and the right concurrency do not show.',
  ['server/agents/agents.go', 'aagent/aagent.go', 'aagent/machine/machine.go', 'aagent/watchers/metricwatcher/prometheus.go', 'broker/network/choria_auth.go', 'choria/connection.go'],
  [('RegisterAgent', 'server/agents/agents.go'), ('savePromState', 'aagent/watchers/metricwatcher/prometheus.go'), ('ManageMachines', 'aagent/aagent.go')],
  'interprocedural lock-set (guarded-by) analysis over SSA',
  'Decides a fixed list of over 100 fields and package variables, those changed after construction and always guarded on the pinned tree. Aliases of a field\'s content kept beyond the lock are not followed.', level='proof')

P('A03', 'Agents are registered once and get only their own messages',
  'An agent is known to the server only while it is fully set up: its name was free, its policy allowed it to be active here and its subscriptions succeeded, and a failed registration leaves nothing behind. A message is handed only to the agent it names, at most once, bounded by that agent\'s timeout, and its reply is sent only when the agent produced one in time.',
  ['schedules', 'faults', 'inputs'],
  'every order of registrations, denials, failures and messages, and every agent that is slow, missing or fails',
  'Unit tests register one agent on a mock connector; failing subscriptions, repeated registration and late replies are the paths they do not take.',
  ['server/agents/agents.go', 'server/processor.go', 'server/agents.go'],
  [('RegisterAgent', 'server/agents/agents.go'), ('Dispatch', 'server/agents/agents.go'), ('subscribeAgent', 'server/agents/agents.go')],
  'must-dataflow over registration and dispatch paths, with provenance of the agent used', MUST)

P('A04', 'External agents only run validated requests and fail closed',
  'The program of an external agent is run for a request only after the inputs of that request were validated against that agent\'s DDL; invalid inputs, unknown actions and missing DDLs abort the request without running anything. The program is given the verified caller, action and data of the request, a limited time, and unless it ends successfully with a valid reply the request is reported as failed.',
  ['inputs', 'faults'],
  'every request, DDL, program and way a program can fail',
  'Tests run a few well-behaved programs; the paths where validation, start, exit or reply go wrong are many and a success reported or program run on one of them is not seen.',
  ['providers/agent/mcorpc/external/agent.go', 'providers/agent/mcorpc/external/provider.go', 'providers/agent/mcorpc/ruby/agent.go'],
  [('externalAction', 'providers/agent/mcorpc/external/agent.go'), ('executeRequest', 'providers/agent/mcorpc/external/agent.go'), ('validateRequest', 'providers/agent/mcorpc/external/agent.go')],
  'must-dataflow to program execution and action returns, with request provenance', MUST)

P('A05', 'Inputs are accepted only when they pass their declared validation',
  'Request data passes DDL validation only when every required input is present, every given input is declared, and each value has its declared type, length, list membership and content. Agents written in Go act only on requests that decoded and passed the validators in their structure tags, and every validator accepts only values that pass its test.',
  ['inputs'],
  'every DDL, request body, validation tag and value',
  'Tests validate sample values; loops that stop early, types without a test, unknown tags and ignored outcomes let other values through.',
  ['providers/agent/mcorpc/ddl/agent/action.go', 'providers/agent/mcorpc/ddl/common/input_item.go', 'providers/agent/mcorpc/mcorpc.go', 'validator/validator.go', 'validator/shellsafe/shellsafe.go'],
  [('ValidateRequestData', 'providers/agent/mcorpc/ddl/agent/action.go'), ('ValidateValue', 'providers/agent/mcorpc/ddl/common/input_item.go'), ('ParseRequestData', 'providers/agent/mcorpc/mcorpc.go'), ('validateStructField', 'validator/validator.go')],
  'must-dataflow on accepting returns and per-pass loop obligations over SSA; tag checks over type information', MUST)

P('X01', 'Jobs are disclosed and signalled only to authorized callers',
  'A job started on a server is signalled, and its command and arguments are shown in its status, only for a caller whom the policy in force authorizes for the agent and action that started the job, judged with the verified identity of the caller asking. Jobs are only read from the job spool, and a request that was refused or found invalid has no effect.',
  ['inputs', 'configurations'],
  'every job, caller, policy, job id and signal in a request',
  'No test covers the executor agent; a test would sample callers and policies while one inverted or missing decision opens all jobs to everyone.',
  ['providers/agent/mcorpc/golang/executor/signal.go', 'providers/agent/mcorpc/golang/executor/status.go', 'providers/agent/mcorpc/golang/executor/util.go', 'providers/execution/exec.go'],
  [('signalAction', 'providers/agent/mcorpc/golang/executor/signal.go'), ('statusAction', 'providers/agent/mcorpc/golang/executor/status.go'), ('proxyAuthorize', 'providers/agent/mcorpc/golang/executor/util.go'), ('Load', 'providers/execution/exec.go')],
  'must-dataflow to signals and disclosures with provenance of the authorized request', MUST)

P('X02', 'Programs are waited for and their output is neither lost nor corrupted',
  'Every program Choria starts is waited for on every path, together with the copying of its output. A program is never left blocked on output Choria stopped reading, whatever it writes, and lines passed between goroutines are not overwritten while in use. The exit of a supervised job is always saved and published.',
  ['schedules', 'faults', 'inputs'],
  'every program, output, failure and interleaving of the goroutines that read it',
  'The supervisor has no tests; lost tails, overwritten lines and blocked writers depend on timing and on output no sample has.',
  ['providers/execution/exec.go', 'providers/agent/mcorpc/external/agent.go', 'providers/discovery/external/external.go', 'aagent/watchers/execwatcher/exec.go', 'providers/agent/mcorpc/ruby/agent.go'],
  [('StartSupervised', 'providers/execution/exec.go'), ('watchOutputReader', 'providers/execution/exec.go'), ('executeRequest', 'providers/agent/mcorpc/external/agent.go'), ('watch', 'aagent/watchers/execwatcher/exec.go')],
  'typestate of started programs and pipes by path search over SSA; ownership of borrowed buffers', MUST)

P('K02', 'Policies, classes and configuration are read whole or refused',
  'Files that are read line by line (action policies and their groups, class lists, configuration, checksum lists, node lists) are used only when they were read to their end. A file that can be read only in part, because of an error or a line that is too long, is reported as a failure that reaches those who asked for it.',
  ['inputs', 'faults'],
  'every file content and every point at which reading it can fail',
  'Tests read short, valid files; the rules, classes and settings after an unreadable line are dropped silently only for files no test has.',
  ['config/util.go', 'config/config.go', 'filter/classes/classes.go', 'providers/agent/mcorpc/authz_actionpolicy.go', 'internal/util/sha256sum.go', 'providers/discovery/flatfile/flatfile.go'],
  [('parseConfigContents', 'config/util.go'), ('ReadClasses', 'filter/classes/classes.go'), ('evaluatePolicy', 'providers/agent/mcorpc/authz_actionpolicy.go'), ('Sha256VerifyDir', 'internal/util/sha256sum.go')],
  'path search from the end of every scanner and from every failure to the returns', MUST)

P('P03', 'Malformed data never crashes the program',
  'No content of a message, token, policy, DDL, machine, manifest, status file, discovery source, program output or setting makes the program crash by taking an element that is not there, by using something the data left out, or by treating a value as a type it is not. Data that lacks what is relied on is refused where it is read.',
  ['inputs'],
  'every document and text that is read, and every place that takes elements, pointers or types from it',
  'Tests read well formed data and a few broken documents; a null in a list, an empty command after templating or a missing section crashes a whole server and is one of endlessly many inputs.',
  ['statistics/instance.go', 'aagent/machine/machine.go', 'providers/agent/mcorpc/ddl/agent/agent.go', 'providers/agent/mcorpc/authz_jwt.go', 'aagent/util/nagios.go', 'protocol/v1/transport.go', 'providers/discovery/inventory/inventory.go', 'validator/util.go'],
  [('LoadInstanceStatus', 'statistics/instance.go'), ('Validate', 'aagent/machine/machine.go'), ('NewFromBytes', 'providers/agent/mcorpc/ddl/agent/agent.go'), ('EvaluateAgentListPolicy', 'providers/agent/mcorpc/authz_jwt.go')],
  'lower-bound dataflow of lengths on all paths, backward type flow to assertions, and must-dataflow from decoding to successful returns over SSA',
  'Sound for constant indexes and those counted from the end, for assertions on values of unknown type and for pointers to structures in decoded data. Indexes that vary, nil interfaces, arithmetic and library internals are outside of it.')

P('M01', 'Only verified archives and specifications are deployed',
  'A downloaded archive is moved into place, and deployed contents are reported verified, only when the checksum of the archive, and when configured that of its checksum file and of all its contents, are the configured ones; archives create only plain files and directories below the directory they are extracted to. Specifications of plugins and autonomous agents are used only unsigned when no public key is set, else when their signature verifies with it, compiled in and configured keys overriding those in a machine. Each entry in them is complete, stays below the directory managed, and is deployed only to nodes it matches.',
  ['inputs', 'faults', 'configurations'],
  'every archive, checksum file, specification, key and failure during deployment',
  'Tests deploy a few archives; one check that is skipped on one path, or made on another file than the one deployed, deploys unverified code to a fleet.',
  ['aagent/watchers/archivewatcher/archive.go', 'aagent/watchers/pluginswatcher/plugins.go', 'aagent/watchers/pluginswatcher/specification.go', 'aagent/watchers/machineswatcher/machines.go', 'internal/util/sha256sum.go', 'aagent/aagent.go'],
  [('extractAndVerifyToTemp', 'aagent/watchers/archivewatcher/archive.go'), ('untar', 'aagent/watchers/archivewatcher/archive.go'), ('loadAndValidateData', 'aagent/watchers/pluginswatcher/plugins.go'), ('desiredState', 'aagent/watchers/machineswatcher/machines.go'), ('Sha256VerifyDir', 'internal/util/sha256sum.go')],
  'must-dataflow to moves, writes and decodes, with provenance of paths, sums, keys and messages, over SSA', MUST)

P('M02', 'Watchers act only in their states and lead to the transitions they stand for',
  'A watcher of an autonomous agent runs commands, requests, publishes, changes data or files, and transitions only when the machine is in one of the states the watcher is for, or there are none, and every machine it requires is in the state required, and what it started for a state is stopped once that state is left. Success, failure and named transitions follow only from the outcomes that stand for them: failures are reported as such, success only after the work was done. Machines fire only events that are possible in their state, and are given out only when they validated, with every state and transition their watchers name being known.',
  ['inputs', 'schedules', 'faults', 'histories'],
  'every machine, state, outcome and failure of every kind of watcher',
  'Most watchers are tested only for parsing; a watcher acting outside of its states or taking the wrong transition after a fault shows only in combinations of states, failures and timing no test runs.',
  ['aagent/watchers/watcher/watcher.go', 'aagent/watchers/execwatcher/exec.go', 'aagent/watchers/kvwatcher/kv.go', 'aagent/watchers/nagioswatcher/nagios.go', 'aagent/watchers/timerwatcher/timer.go', 'aagent/watchers/watcherdef.go', 'aagent/machine/machine.go'],
  [('ShouldWatch', 'aagent/watchers/watcher/watcher.go'), ('handleCheck', 'aagent/watchers/execwatcher/exec.go'), ('poll', 'aagent/watchers/kvwatcher/kv.go'), ('ValidateStates', 'aagent/watchers/watcherdef.go'), ('Transition', 'aagent/machine/machine.go')],
  'must-dataflow to actions and reported outcomes, and constant propagation of each outcome along every path of its handlers, over SSA', MUST)

P('V01', 'Provisioning is only done for the provisioner and only when provisioning',
  'The provisioning agent changes a server, its keys, configuration or release, restarts or stops it, and discloses what it holds, only after the request was parsed, its token was the one configured, the server was in the mode the action is for, and where it configures the server the lock was held for that sender and caller; nothing is done after an abort or a failed step, and a failed step is always reported. A configuration is put in place only when completely written and valid, policies only below their directory, received private keys only when encrypted for a key pair made for that exchange, and a new key only once the token for the old one is gone. Settings are relaxed only in provisioning mode, which only servers that know a provisioner and are not configured otherwise are in and which runs no machines or data providers, and a provisioning token changes settings only when complete.',
  ['inputs', 'histories', 'faults'],
  'every request of every sender, every state of the lock and mode, and every failed step',
  'The tests call single actions with one missing precondition each; a step that fails half way, a lock that is taken over or names that leave the directory show only in combinations of requests and faults.',
  ['providers/agent/mcorpc/golang/provision/provision.go', 'providers/agent/mcorpc/golang/provision/util.go', 'providers/agent/mcorpc/golang/provision/configure_action.go', 'choria/framework.go', 'providers/provtarget/builddefaults/default.go'],
  [('checkToken', 'providers/agent/mcorpc/golang/provision/util.go'), ('lockFor', 'providers/agent/mcorpc/golang/provision/util.go'), ('writeConfig', 'providers/agent/mcorpc/golang/provision/configure_action.go'), ('ProvisionMode', 'choria/framework.go'), ('SetBuildBasedOnJWT', 'providers/provtarget/builddefaults/default.go')],
  'must-dataflow of the preconditions to every effect over SSA, path search from failed steps and aborts, provenance of what is compared, stored and disclosed', MUST)

P('S04', 'TLS peers are verified unless the configuration says otherwise',
  'The TLS configurations of security providers carry the configured authority whenever there is one and never leave peers unverified or accept versions before TLS 1.2, unless verification is disabled in the configuration, the optional-mTLS provider has no authority, or the connection is within the process, for provisioning, to a remote signer, anonymous by configuration or fetching the first authority; the legacy verification that takes the place of the standard one verifies both chain and name. Brokers request client certificates and verify those given, refuse plain connections once TLS is set up, and leafnodes and outgoing connections use TLS unless it is disabled for them. The settings that relax this are off by default and follow only from the configuration or from anonymous TLS, which clients need a remote signer for, and a security provider is valid before it is used.',
  ['inputs'],
  'every combination of settings, security provider, certificate files that do and do not exist, and peer',
  'The tests have the combinations of settings that work; a combination in which a peer is silently not verified keeps working, so no test that expects a connection notices.',
  ['providers/security/filesec/file_security.go', 'providers/security/choria/choria_security.go', 'providers/security/pkcs11sec/pkcs11_security.go', 'choria/connection.go', 'choria/framework.go', 'broker/network/network.go', 'broker/network/network_leafnodes.go', 'broker/network/util.go', 'config/config.go'],
  [('TLSConfig', 'providers/security/filesec/file_security.go'), ('constructCustomVerifier', 'providers/security/filesec/file_security.go'), ('anonTLSc', 'choria/connection.go'), ('setupTLS', 'broker/network/network.go'), ('setupSecurity', 'choria/framework.go')],
  'must-dataflow of what permits it to every store that relaxes TLS, and of authorities and TLS to every configuration and connection returned, over SSA; provenance of authorities', MUST)

P('P07', 'Requests and replies reach those they are addressed to, and say what they should',
  'A message is published to the subjects its type, target, collective and federation call for, in a transport that carries the request or reply made of it in the protocol version asked for; a reply answers the request it is made for, and what is set in a message is what is found in it. A client publishes a request only once the receiver of its replies subscribed, to the targets it was given or discovered, limited and batched as asked, and no failure to publish is lost. Every reply is verified before it is handled, and is counted once, for what it is.',
  ['inputs', 'schedules'],
  'every type of message, federation setting, target, option of a request, batch, reply, and path through publishing and receiving',
  'The tests publish a few messages through mocks; which of many subjects, fields and layers a message of another type, federated, batched or with another reply target ends up with depends on paths they do not combine.',
  ['choria/connection.go', 'choria/protocol.go', 'protocol/federation.go', 'message/message.go', 'client/client/client.go', 'providers/agent/mcorpc/client/client.go', 'providers/agent/mcorpc/client/options.go', 'protocol/v1/request.go', 'protocol/v2/request.go'],
  [('Publish', 'choria/connection.go'), ('NewReplyTransportForMessage', 'choria/protocol.go'), ('CopyFederationData', 'protocol/federation.go'), ('Transport', 'message/message.go'), ('Request', 'client/client/client.go'), ('ConfigureMessage', 'providers/agent/mcorpc/client/options.go'), ('handlerFactory', 'providers/agent/mcorpc/client/client.go')],
  'copy propagation that names values by where they come from along all paths of the publisher, the constructors, the message types and the clients, compared with what each scenario calls for; order of subscribing and publishing along paths', MUST, level='other')


P('F01', 'The federation broker carries requests to their targets and replies back',
  'A federated request that reaches the broker is published in the collective to every target its sender asked for, with replies directed to the broker and the sender\'s own reply subject and request id kept with it, and its targets removed. A federated reply is published, with the federation envelope removed, to the reply subject that was kept, and to no other. Each side reads from and writes to its own network, every stage is linked and run, and what is not federated, cannot be parsed, or has no destination is dropped.',
  ['inputs', 'schedules', 'histories'],
  'every message that can arrive on either side, every set of targets, every failure to encode or publish one, in every order',
  'The tests pass one good message, and one message without each of the fields, through single stages with a mock; what happens with a target that fails, with both sides linked, and with fields set in another order is not sampled.',
  ['broker/federation/federation.go', 'broker/federation/request_transformer.go', 'broker/federation/reply_transformer.go', 'broker/federation/choria_nats_ingest.go', 'broker/federation/choria_nats_egest.go', 'broker/federation/pooled_worker.go'],
  [('Start', 'broker/federation/federation.go'), ('NewChoriaRequestTransformer', 'broker/federation/request_transformer.go'), ('NewChoriaReplyTransformer', 'broker/federation/reply_transformer.go'), ('NewChoriaNatsIngest', 'broker/federation/choria_nats_ingest.go'), ('NewChoriaNatsEgest', 'broker/federation/choria_nats_egest.go'), ('Run', 'broker/federation/pooled_worker.go')],
  'copy propagation that names values by where they come from along all paths of one pass of each worker, compared with what each stage has to pass on and under which conditions; linking and starting of the stages along paths', MUST, level='other')

P('U01', 'Submitted messages stay in the spool until delivered, expired or out of tries',
  'A valid message that was submitted is published with its subject, payload and headers, reliable ones until the stream acknowledges them, and stays in the spool across crashes and failed attempts; it is removed only when it was delivered, is invalid or expired, or its tries are used up. Messages are written to the spool all at once or not at all, failed attempts are counted and delayed, and later reliable messages wait for one that failed while messages that cannot be removed are not published again.',
  ['inputs', 'crash points', 'histories'],
  'every message, priority, time to live, number of tries, content of the spool directory, failure of file operations and answer of the network',
  'The spool tests use valid messages, working directories and a mock that accepts; failed writes and removals, crashes between steps, invalid answers and mixes of messages are not sampled.',
  ['submission/disk_spool.go', 'submission/spool.go', 'submission/msg.go', 'submission/options.go', 'server/instance.go'],
  [('Run', 'submission/spool.go'), ('Validate', 'submission/msg.go'), ('processDir', 'submission/disk_spool.go'), ('writeMessage', 'submission/disk_spool.go')],
  'copy propagation that names values by where they come from along all paths of one pass over the spooled messages and of what validates, builds, writes, counts and removes them, compared with what each case calls for', MUST, level='other')
P('D01', 'Data adapters put what arrives on their topic in their stream, unchanged',
  'A message that arrives on the topic an adapter is configured with, in the protocol it is configured with, is published to the stream subject it is configured with, with the payload, sender, time and request id of the message. It is dropped only when it cannot be parsed or encoded, or while the queue between both sides is full. All workers are connected before any is run, and share one queue.',
  ['inputs', 'schedules'],
  'every message, configuration of topics, protocols and servers, and state of the queue and the connections',
  'The adapters have next to no tests; which of the fields and topics is used, and what happens when the queue is full or a message cannot be parsed, is not sampled.',
  ['broker/adapter/adapter.go', 'broker/adapter/ingest/ingest.go', 'broker/adapter/streams/adapter.go', 'broker/adapter/streams/output.go', 'broker/adapter/transformer/transformer.go'],
  [('Receiver', 'broker/adapter/ingest/ingest.go'), ('publisher', 'broker/adapter/streams/output.go'), ('TransformToOutput', 'broker/adapter/transformer/transformer.go'), ('Create', 'broker/adapter/streams/adapter.go')],
  'copy propagation that names values by where they come from along all paths of one pass of each worker, and of what constructs, connects and starts them, compared with what has to be passed on and when', MUST, level='other')
P('D02', 'Discovery finds all nodes that match the filters asked for, and no others',
  'Discovery by broadcast, inventory, file, PuppetDB or an external command uses exactly the filter, collective, options and timeout it was given, and gives every node that is found to match all parts of it and none that does not. Only a filter of plain names (with at most agents) skips asking. What cannot be read, parsed, validated, asked or answered is an error and not a shorter list of nodes.',
  ['inputs', 'configurations'],
  'every filter, discovery method and option, every inventory, node file and reply',
  'Tests sample single filters against fixtures; filters of several kinds, nodes of which only some parts match, options that override each other and errors in the middle of data are not sampled.',
  ['providers/discovery/broadcast/broadcast.go', 'providers/discovery/inventory/inventory.go', 'providers/discovery/inventory/datafile.go', 'providers/discovery/flatfile/flatfile.go', 'providers/discovery/external/external.go', 'providers/discovery/puppetdb/puppetdb.go', 'client/discovery/cli_helper.go'],
  [('Discover', 'providers/discovery/broadcast/broadcast.go'), ('selectMatchingNodes', 'providers/discovery/inventory/inventory.go'), ('Discover', 'providers/discovery/flatfile/flatfile.go'), ('searchString', 'providers/discovery/puppetdb/puppetdb.go'), ('Merge', 'client/discovery/cli_helper.go')],
  'copy propagation that names values by where they come from along all paths of each discovery method and of the choice between them, compared with a formula over the conditions on the path', MUST, level='other')
P('P06', 'Nodes act only on requests whose filters they match, all of them, as documented',
  'A node acts on a request when it matches the agent, class, identity, fact and compound filters in it, each kind when given and each filter of a kind (any, for identities): by name, by regular expression between slashes, by comparing facts as what they are, or by the result of the query. A filter that cannot be used, such as an invalid expression or number, matches nothing and not everything. The filters a user gives are the ones parsed, added and carried in the request, none of them dropped or of another kind.',
  ['inputs', 'configurations'],
  'every set of filters, fact value and type, operator, and every combination of known agents, classes and identity',
  'The filter tests have a handful of needles that are found or not; lists in which one of several does not match, facts of other types, values at boundaries and errors in the middle are not sampled.',
  ['filter/filter.go', 'filter/agents/agents.go', 'filter/classes/classes.go', 'filter/identity/identity.go', 'filter/facts/facts.go', 'filter/compound/compound.go', 'protocol/filter.go', 'server/discovery/discovery.go', 'choria/protocol.go'],
  [('MatchServerRequest', 'protocol/filter.go'), ('HasFactJSON', 'filter/facts/facts.go'), ('MatchExprString', 'filter/compound/compound.go'), ('CombinedFilter', 'filter/filter.go'), ('ShouldProcess', 'server/discovery/discovery.go')],
  'copy propagation that names values and conditions by where they come from along all paths of the matchers, lists of up to three elements, compared with a formula per filter in three-valued logic', 'Lists of filters and of what is known are followed to three elements, loops beyond that are shown to be full by their shape; the libraries that parse facts, expressions and versions are taken as given. A regular expression of a lone slash matches everything, as it always did.', level='other')
P('R01', 'Generated clients send what they were given and give back every reply',
  'A generated agent client sends its action with exactly the inputs that were set, under the names in the DDL, to the targets that were set or else to the nodes its discovery finds for all its filters, with every request option that was set and none that was reset. Every reply that is not filtered out is in the result, with its sender, status, time, the defaults of the DDL and its data, whatever the other replies were. Outputs are read under their own names as what the DDL says they are, and are empty and do not panic when a reply lacks them.',
  ['inputs', 'configurations'],
  'every client, action, combination of options, set of targets, filters and replies',
  'Tests use one action of one client; the 7 clients have 32 actions with over 200 inputs and outputs, and options that build on each other over several requests.',
  ['client/rpcutilclient/requester.go', 'client/rpcutilclient/discover.go', 'client/rpcutilclient/rpcoptions.go', 'client/rpcutilclient/client.go', 'client/scoutclient/requester.go', 'client/executorclient/action_status.go', 'client/choria_provisionclient/action_gencsr.go'],
  [('do', 'client/rpcutilclient/requester.go'), ('parseFilters', 'client/rpcutilclient/discover.go'), ('OptionReset', 'client/rpcutilclient/rpcoptions.go'), ('New', 'client/rpcutilclient/client.go'), ('Do', 'client/executorclient/action_status.go')],
  'copy propagation that names values by where they come from along all paths of every generated client, compared with what the conditions on the path and the ddl.json beside the code call for', MUST, level='other')
P('C04', 'Workers end when told, are waited for, and none waits for ever for another',
  'A worker that is waited for is counted before it starts and done once, when its work is, on every path, and whoever starts work of its own waits for it before returning. What waits in the background is told when its context ends and then stops. No value is handed over to a channel that may never be read again unless there is room for it or the wait can end, what is waited for is sent whatever fails, nothing is sent to a channel that was closed, and ending one request or subscription ends no other.',
  ['schedules', 'histories'],
  'every interleaving, cancellation, failure and shutdown at any point of the workers of servers, brokers, autonomous agents and clients',
  'Tests start a worker, let it do one thing and cancel it; a shutdown while it hands over a value, a reader that left, an early error between counting and starting, or a close during a delivery needs a schedule they do not sample.',
  ['server/instance.go', 'server/processor.go', 'server/agents/agents.go', 'server/registration/registration.go', 'aagent/aagent.go', 'aagent/watchers/watchers.go', 'broker/federation/pooled_worker.go', 'broker/adapter/ingest/ingest.go', 'choria/connection.go', 'client/client/client.go', 'submission/disk_spool.go', 'providers/execution/exec.go', 'scout/stream/ephemeral.go'],
  [('processRequests', 'server/processor.go'), ('Dispatch', 'server/agents/agents.go'), ('ManageMachines', 'aagent/aagent.go'), ('QueueSubscribe', 'choria/connection.go'), ('Request', 'client/client/client.go'), ('StartPoll', 'submission/disk_spool.go'), ('watchOutput', 'providers/execution/exec.go')],
  'interprocedural count of each work group along all paths; typestate of waits in loops, and of channels: capacity against the most values that may be in one, who reads, who closes', 'Decided for each function and for what it starts: that a worker is told, counted and can leave. How long a call of the operating system, network or a user program takes that ignores its context is not bounded. Values received over a channel that the NATS library feeds are taken to come as that library says.', level='other')
P('P04', 'Only what its schema allows becomes a message, and it allows what is made',
  'Data becomes a request, reply, secure message or transport only when it is JSON that the schema for that kind and version of message allows (replies and transports when strict validation is asked for); that validating failed counts as invalid, and what is decoded is what was validated. What is encoded is given only when it is valid itself, each schema asks for the version it is for, and fits what messages of that type are encoded to. What is found while validating machines, inventories and DDLs is not lost.',
  ['inputs'],
  'all data that can arrive and every message that can be made, in both protocol versions, with and without strict validation',
  'Tests validate a few good documents and one or two broken ones, mostly without strict validation; a validator that fails, errors of one kind that are dropped, or a schema that is at odds with its type is not sampled.',
  ['protocol/schemas.go', 'protocol/v1/schemas.go', 'protocol/v2/schemas.go', 'protocol/v1/constructors.go', 'protocol/v2/request.go', 'protocol/v2/secure_request.go', 'internal/util/util.go', 'internal/fs/schemas/choria/protocol/v2/reply.json'],
  [('SchemaValidate', 'protocol/schemas.go'), ('ValidateSchemaFromFS', 'internal/util/util.go'), ('IsValidJSON', 'protocol/v2/request.go'), ('NewRequestFromSecureRequest', 'protocol/v1/constructors.go')],
  'copy propagation that names values and conditions by where they come from along all paths of the validators, constructors and encoders; the embedded schemas compared with the types and tags of the structs', 'The JSON schema library is trusted to find what a schema does not allow. That a request signed by a remote signer is decoded without validation is intended: the signer is trusted.', level='other')
