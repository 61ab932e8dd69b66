"""Writes /verif/properties.jsonl (the property list lives here, one entry per property)."""
import json, pathlib

P = "high_order_layers_torch/"
PL, BA, LP = P + "PolynomialLayers.py", P + "Basis.py", P + "LagrangePolynomial.py"
FC, FT, LA = P + "FunctionalConvolution.py", P + "FunctionalConvolutionTranspose.py", P + "layers.py"
NW, UT, MO = P + "networks.py", P + "utils.py", P + "modules.py"
PE, AT, SL, PR = P + "positional_embeddings.py", P + "attentions.py", P + "sparse_optimizers/sparse_lion.py", P + "ProductLayer.py"

def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

W = ("w", "link weights, one per interpolation node", PL)

ps = [
prop("C01", "Dense polynomial layers compute the documented piecewise interpolant",
 "For every dense layer of type polynomial, continuous or discontinuous, each output is the sum over inputs of that link's Lagrange interpolant on Chebyshev-Lobatto nodes, taken in the one segment of [-length/2, length/2] that contains the input (at an interior boundary the segment on its right). Neighbouring segments of a continuous link share their boundary weight, discontinuous links own every node, and inputs beyond the domain are evaluated with the first or last segment's polynomial. The value agrees with exact arithmetic up to single-precision rounding for any weights.",
 ["inputs", "configurations"], "all node counts n, segment counts, lengths, widths, weights and finite inputs (in the domain, on nodes and boundaries, and outside it), through the layer factory or the layer classes",
 "Tests evaluate one 5-node polynomial at one point and otherwise only look at output shapes for n<=7, <=10 segments, length 2, inputs in [0,1].",
 [PL, BA, LP, LA], [("segment lookup, weight gather and local rescale", PL + " Piecewise.forward / PiecewiseDiscontinuous.forward"), ("basis contraction", BA + " Basis.interpolate, BasisFlat.interpolate"), ("Lagrange basis", LP + " LagrangeBasis")],
 ["layer output"], [W]),
prop("C02", "Weights are function values: nodal, exact on polynomials, continuous",
 "In every polynomial layer (dense, convolutional, multidimensional) the weight of a node is the value of the link function at that node, so weights sampled from any polynomial of degree below n reproduce that polynomial at every input, inside and outside the domain. Basis functions are one at their own node, zero at the others and sum to one everywhere. Continuous links have no jump at segment boundaries whatever the weights, and the interpolation points run strictly increasing and symmetric from one end of the domain to the other.",
 ["inputs", "configurations"], "all n, segments, lengths, polynomials of degree < n, weights and inputs",
 "Tests check the identity function at one point for n=5 and a constant for n=1; the law quantifies over all polynomials, orders and positions.",
 [LP, BA, PL, FC], [("Chebyshev-Lobatto nodes", LP + " chebyshevLobatto"), ("Lagrange basis 1d and nd", LP + " LagrangeBasis, LagrangeBasisND"), ("basis expansion of images/sequences", BA + " PiecewiseExpand*, PiecewiseDiscontinuousExpand*")],
 ["layer output", "basis values"]),
prop("C03", "Product neurons compute -1 + prod(1 + f_i) over their links",
 "Product-type dense layers (continuous, discontinuous and single-polynomial product layers) output, per neuron, minus one plus the product over inputs of one plus the link function, with the same link functions as the corresponding sum layers. The plain product layer does the same with linear links, adds its optional bias, and its alpha removes a fraction (1 - alpha) of the linear part. A single-input product neuron equals the sum neuron.",
 ["inputs", "configurations"], "all n, segments, widths, weights, inputs, alpha of the plain product layer, bias on or off",
 "No test touches any product layer.",
 [BA, PL, PR, LP], [("product contraction", BA + " BasisProd.interpolate, BasisFlatProd.interpolate"), ("plain product layer", PR + " Product.forward")],
 ["layer output"]),
prop("C04", "Fourier layers evaluate their series and have period length",
 "A Fourier layer with n components outputs, per neuron, the sum over inputs of half the first weight plus the weighted sines and cosines of successive harmonics of the configured length, sine before cosine. Shifting any input by a whole multiple of length leaves the output unchanged. The Fourier embedding is the same function.",
 ["inputs", "configurations"], "all n, lengths, widths, weights and inputs, dense and embedding entry points",
 "No test evaluates a Fourier layer.",
 [LP, BA, PL, PE], [("Fourier basis", LP + " FourierBasis"), ("layer", PL + " FourierSeries"), ("embedding", PE + " FourierSeriesEmbedding")],
 ["layer output"]),
prop("C05", "Multidimensional layers are tensor-product interpolants with one block per link",
 "A d-dimensional polynomial layer outputs the sum over inputs of the tensor-product Lagrange interpolant of that input-output link's own weights, with a possibly different node count in each dimension. The piecewise multidimensional layer does the same inside the block of the segment grid that contains the point (clamped to the outer blocks outside the domain), using the weights of that block only. Different input-output links are independent: changing one link's weights changes only that output.",
 ["inputs", "configurations"], "all dimensions (1 to 5), node counts and segment counts per dimension, widths, weights and points",
 "No test runs any multidimensional layer.",
 [PL, LP], [("nd basis", LP + " LagrangeBasisND, LagrangeBasisPiecewiseND"), ("block lookup and weight gather", PL + " PiecewiseND"), ("nd polynomial layers", PL + " PolynomialND, Polynomial2D..5D")],
 ["layer output"]),
prop("C06", "Convolutions slide the link functions over the input",
 "For every 1d and 2d convolution type (polynomial, continuous, discontinuous, Fourier), each output element is the sum over input channels and kernel taps of that tap's link function applied to the input element under the tap, with stride, dilation and groups as in an ordinary convolution and padded positions contributing nothing under zero padding. There is no other bias. Output rescaling divides by the number of channel-tap inputs feeding each output, and a 1x1 convolution is the dense layer of the same type applied at every position.",
 ["inputs", "configurations"], "all types, n, segments, length, channels, kernel, stride, padding, dilation, groups, image sizes, weights and inputs",
 "Tests only check output shapes for stride 1 and inputs in [0,1], plus one expansion comparison with a single segment.",
 [FC, BA, LP, LA], [("pointwise basis expansion", BA + " PiecewiseExpand, PiecewiseExpand1d, PiecewiseDiscontinuousExpand*"), ("channel layout", FC + " Expansion1d, Expansion2d"), ("wrapped convolution and rescale", FC + " conv_wrapper, *Convolution*")],
 ["layer output"]),
prop("C07", "Transposed convolutions scatter the link functions onto the output",
 "A transposed piecewise-polynomial convolution adds, for every input element and kernel tap, that tap's link function of the input element to the output position the tap maps to, with stride, padding, output padding and dilation as in an ordinary transposed convolution. Output size is stride*(size-1) + dilation*(kernel-1) - 2*padding + output_padding + 1. Output rescaling divides by input channels times kernel taps.",
 ["inputs", "configurations"], "all n, segments, length, channels, kernel, stride, padding, output padding, dilation, sizes, weights and inputs",
 "Tests check shapes only.",
 [FT, BA, FC], [("transposed wrapper", FT + " conv_transpose_wrapper, PiecewisePolynomialConvolutionTranspose")],
 ["layer output"]),
prop("C08", "Periodicity folds inputs mirror-wise without seams",
 "With periodicity p a layer's output at x equals its output without periodicity at the mirror image of x in [-p/2, p/2]: identity inside that interval, reflected at its ends, period 2p. The fold is continuous and never leaves the interval. This holds for every dense and convolutional polynomial layer, the plain product layer and the segment lookup.",
 ["inputs", "configurations"], "all inputs however far out, periodicities, layer types and weights",
 "The fold is imported by one test but never evaluated; no test sets periodicity on a single layer.",
 [UT, PL, FC, FT, PR], [("fold", UT + " make_periodic"), ("fold applied before evaluation", PL + ", " + FC + ", " + FT + ", " + PR + " forward")],
 ["layer output", "folded value"]),
prop("C09", "Only the active segment's weights matter",
 "In a piecewise dense or convolutional layer an input only involves the n weights of the one segment that contains it: changing any other weight of the link leaves the output unchanged and those weights get an exactly zero gradient. Changing a weight of the active segment changes the output in proportion to its basis function. Links of other inputs or outputs are never involved.",
 ["inputs", "configurations"], "all piecewise layers, n, segments, widths, inputs and single-weight perturbations",
 "One test counts non-zero gradients for one input of one layer; nothing checks which weights are active or other layer kinds.",
 [PL, BA, FC], [("weight gather per segment", PL + " Piecewise.forward, PiecewiseDiscontinuous.forward, PiecewiseND._get_weight_indices"), ("sparse scatter of the basis", BA + " Piecewise*Expand*")],
 ["output difference", "weight gradients"]),
prop("C10", "Gradients are the derivatives of the computed function",
 "For every layer type, back-propagation yields the derivative of the layer's mathematical function with respect to its inputs and to every weight, and all gradients are finite, including at interpolation nodes, at zero and outside the domain.",
 ["inputs", "configurations"], "all layer types, configurations, weights, inputs away from kinks (finiteness everywhere), and directions",
 "Tests only count the non-zero weight gradients of one layer at one point.",
 [PL, BA, LP, FC, FT, PR, LA], [("differentiable basis evaluation", LP + " LagrangeBasis, LagrangeBasisND, FourierBasis"), ("differentiable gather", PL)],
 ["input gradients", "weight gradients"]),
prop("C11", "p-refinement keeps the network function",
 "Interpolating a network or layer onto one of equal structure and equal or higher polynomial order in every layer makes the second compute the same function as the first for every input, including beyond the domain, and leaves the first unchanged. This holds for continuous, discontinuous, product, switch and residual networks and through any chain of refinements. A different number of segments is rejected with a ValueError.",
 ["inputs", "configurations", "histories"], "all orders n_in <= n_out per layer, widths, depths, segments, weights, inputs, and sequences of refinements",
 "Tests compare two random non-negative inputs for a few fixed sizes right after default initialisation, where every link is a constant, so wrong interpolation nodes cannot be seen.",
 [PL, NW, LA], [("layer interpolation", PL + " interpolate_polynomial_layer"), ("network walk", NW + " interpolate_high_order_mlp"), ("switch layers", LA + " SwitchLayer.interpolate")],
 ["outputs of both networks"], [W]),
prop("C12", "h- and hp-refinement keep the network function",
 "Refining a continuous (or continuous switch) layer or network onto one whose segment counts are multiples of, and whose orders are at least, the original's makes the second compute the same function everywhere, and leaves the first unchanged. Any history of alternating h-, p- and hp-refinements preserves the original function.",
 ["inputs", "configurations", "histories"], "all segment multiples, orders, widths, depths, weights, inputs and refinement sequences",
 "Tests refine freshly initialised (constant) links for a handful of sizes and look at two inputs.",
 [PL, NW, LA], [("layer refinement", PL + " refine_polynomial_layer, which_segment, x_local, x_global"), ("network walk", NW + " hp_refine_high_order_mlp")],
 ["outputs of both networks"], [W]),
prop("C13", "Initialisation gives constant, uniform or straight-line links as requested",
 "By default every link of a fresh polynomial layer (dense, 2d convolution, multidimensional) is a random constant within weight_magnitude divided by the number of inputs, so a fresh layer's output does not depend on its input, and links are drawn independently; uniform initialisation, where requested, draws each weight within plus or minus that bound. Linear initialisation makes every link one straight line across all its segments with slope and offset bounded by the given maxima (the slope scaled by the given function of the input width). It touches only polynomial layers.",
 ["inputs", "configurations"], "all layer types, n, segments, widths, magnitudes, seeds, network shapes",
 "Tests check antisymmetry of the end weights and that outputs change; nothing checks constancy, linearity, bounds or that other layers stay untouched.",
 [PL, FC, NW, LA], [("constant initialisation", PL + " constant_random_initialization; " + FC + " constant_random_initialization_conv2d"), ("line initialisation", PL + " initialize_polynomial_layer"), ("network walk", NW + " initialize_network_polynomial_layers")],
 ["layer output", "weights"]),
prop("C14", "Smoothing shrinks exactly the jumps of discontinuous layers",
 "Smoothing a discontinuous layer by a factor multiplies the jump at every interior segment boundary by one minus the factor, keeps the mean of the two boundary values, and changes no other weight. Factor one makes the layer continuous, factor zero changes nothing, and repeated smoothing composes multiplicatively. Smoothing a network does this to each of its discontinuous layers and to nothing else.",
 ["inputs", "configurations", "histories"], "all n >= 2, segments, widths, weights, factors and sequences of factors",
 "Tests use factor 1.0 on freshly initialised layers only, where there is no jump to begin with.",
 [PL, NW], [("jump update", PL + " smooth_discontinuous_layer"), ("network walk", NW + " smooth_discontinuous_network")],
 ["weights", "one-sided limits"]),
prop("C15", "Normalisations are per sample, bounded and follow their formula",
 "Max-abs normalisation divides by the largest magnitude plus eps, max-center normalisation subtracts the midrange and divides by the half range plus eps, and L2 normalisation divides by the Euclidean norm plus eps, each along the documented axis or over the whole sample. Results of the max variants stay within [-1, 1], are finite for all-zero samples, keep the shape, and a sample's result does not depend on the other samples. Lazy layer norm equals layer norm over the last dimension.",
 ["inputs", "configurations"], "all shapes, values (zero, huge, tiny, negative), eps and axes, functional and module forms",
 "Tests evaluate a few positive hand-written arrays with eps 0.",
 [UT, LA], [("functions", UT + " max_abs_normalization*, max_center_normalization*, l2_normalization"), ("modules", LA + " MaxAbsNormalization*, MaxCenterNormalization*, L2Normalization, LazyLayerNormLastDim")],
 ["normalised tensor"]),
prop("C16", "Evaluation is per sample, layout-independent and free of side effects",
 "For every layer and, in evaluation mode, every network: a sample's output depends only on that sample and the current weights, not on batch size, batch order, memory layout of the input or on earlier calls. Evaluation modifies neither its input nor any parameter, repeating it gives the same result, and after the weights change the output is that of the new weights.",
 ["inputs", "configurations", "histories"], "all layer and network types, batch sizes, permutations, strides, and interleavings of evaluation, weight updates, copies, reloads and mode switches",
 "Tests call each model once with one contiguous batch.",
 [PL, BA, FC, FT, LA, NW, PR, UT], [("vectorised evaluation indexed per sample", PL + ", " + BA), ("stateless modules", LA + ", " + NW)],
 ["outputs", "inputs after the call", "parameters after the call"]),
prop("C17", "Every weight that shapes the output is trainable and saved",
 "For every layer and network, the registered parameters together with the configuration determine the function: saving the state and loading it into a fresh instance of the same configuration reproduces all outputs, a deep copy or pickle is equal and independent, and every polynomial weight of the model is among the parameters handed to an optimizer. One optimizer step along the gradient therefore lowers the loss of a model whose gradient is not zero. Fixed rotation inputs are saved but not trained.",
 ["configurations", "inputs", "histories"], "all layer and network types and configurations (switch, residual, dropout, normalisation included), weights, inputs and save/load/copy/train histories",
 "No test saves, loads, copies or trains a model or counts parameters.",
 [LA, NW, PL, FC, PR], [("submodule registration", LA + " SwitchLayer, SumLayer; " + NW + " network constructors"), ("parameters", PL + ", " + PR)],
 ["state_dict", "parameters()", "outputs"]),
prop("C18", "MLP networks apply the configured layers in order",
 "Every multilayer network (high order, per-layer list, multi-column, low order, rotation-transformed) maps [batch, in_width] to [batch, out_width] by applying the input layer, the hidden layers and the output layer with exactly the configured type, order, segments, scale and periodicity, normalisation before nonlinearity between consecutive layers and none after the output. Residual networks add each later hidden layer's input to its output, switch layers multiply the outputs of their component layers and then normalise, and column networks sum their columns. Dropout is inactive in evaluation mode.",
 ["configurations", "inputs"], "all layer types, per-layer orders and segments, widths, depths, residual/normalisation/nonlinearity/dropout options, weights and inputs",
 "Tests check output shapes only, for uniform settings.",
 [NW, LA], [("network assembly", NW + " HighOrderMLP, HighOrderMLPList, HighOrderMultiMLP, LowOrderMLP, transform_mlp, transform_low_mlp"), ("combination layers", LA + " SwitchLayer, SumLayer, fixed_rotation_layer")],
 ["network output"]),
prop("C19", "Convolutional networks chain their layers and report their sizes",
 "A fully convolutional network applies its convolutions (each followed by its normalisation), then global average pooling if requested, and flattens; a deconvolutional network chains its transposed convolutions. The tail-focus network returns the last focus elements of the raw input and of each earlier level followed by the whole final level, flattened and concatenated. Reported output and per-level sizes equal the sizes actually produced.",
 ["configurations", "inputs"], "all layer types, per-layer or scalar settings, strides, paddings, focus lengths, normalisation on or off, input sizes, weights and inputs",
 "Tests check shapes for uniform layers, default or stride-2, no padding.",
 [NW, FC, FT], [("assembly", NW + " HighOrderFullyConvolutionalNetwork, HighOrderFullyDeconvolutionalNetwork, HighOrderTailFocusNetwork"), ("size report", NW + " compute_sizes, output_size, in_channels")],
 ["network output", "reported sizes"]),
prop("C20", "The variational autoencoder encodes, samples and scores as specified",
 "The autoencoder's latent mean and log variance are affine in the flattened encoding, sampling returns mean plus exp(half the log variance) times standard normal noise, decoding maps any batch of latents through the decoder, and generation returns the reconstruction. The loss is the mean squared reconstruction error plus the given weight times the batch mean of the Gaussian KL divergence, which is never negative and is zero only for the standard normal.",
 ["inputs", "configurations"], "all encoders/decoders, latent sizes, batches, means, log variances and weights",
 "No test constructs the autoencoder.",
 [NW], [("VAE", NW + " VanillaVAE")],
 ["loss dictionary", "latents", "reconstruction"]),
prop("C21", "Sparse Lion is Lion on touched entries and inert elsewhere",
 "After any sequence of gradient steps, every parameter entry equals the Lion recurrence (decoupled weight decay, sign of the interpolated momentum, momentum update) run only over the steps in which that entry's gradient was non-zero. Entries with zero gradient keep value and momentum exactly, parameters without gradient are untouched, and per-group settings apply. Saving and restoring the optimizer state continues the same trajectory.",
 ["histories", "inputs", "configurations"], "all histories of gradients (with zero patterns), parameter shapes and groups, learning rates, betas, weight decay, closures, save/restore points",
 "The test takes one step with weight decay 0 and checks that something changed.",
 [SL], [("masked update", SL + " update_fn, SparseLion.step")],
 ["parameters", "optimizer state"], [("exp_avg", "per-entry momentum", SL)]),
prop("C22", "Coordinate features: rotations, mesh axes and embeddings",
 "The rotation layer outputs each input and, for every pair of inputs and rotation step, the coordinate along the rotated axis and along the axis orthogonal to it, with frozen weights, the reported width, and results within [-1, 1] for inputs in [-1, 1] when normalised. Mesh positions return for each rotation the coordinate along that axis and along its orthogonal, rescaled to span exactly [-1, 1] when normalised and [-max_dim/2, max_dim/2] otherwise. The sinusoidal embedding holds sines then cosines of the input at geometrically spaced frequencies from 1 to 1/10000, and the piecewise embeddings equal the corresponding layers.",
 ["inputs", "configurations"], "all widths, rotations, mesh sizes, embedding dimensions and inputs",
 "Tests list the matrices for n=2,3 and at most 3 rotations, check value ranges for one 10x10 mesh and shapes of the embedding.",
 [LA, UT, PE], [("rotation layer", LA + " fixed_rotation_layer"), ("mesh", UT + " positions_from_mesh"), ("embeddings", PE)],
 ["outputs"]),
prop("C23", "Attention weights form a distribution and masks are respected",
 "Every attention module weights the values with non-negative weights that sum to one over the attended positions, computed from the documented score, and returns that weighted combination. Masked positions get zero weight and cannot influence the result of the sample and query they are masked for, in every head. Samples of a batch do not influence one another, also when alignments of the previous step are fed back.",
 ["inputs", "configurations", "histories"], "all batch sizes, lengths, head counts, dimensions, masks, weights and step sequences",
 "No test touches the attention modules.",
 [AT], [("scaled dot product", AT + " ScaledDotProductAttention"), ("head split and mask expansion", AT + " MultiHeadAttention, RelativeMultiHeadAttention"), ("location-aware variants", AT + " LocationAwareAttention, MultiHeadLocationAwareAttention, CustomizingAttention")],
 ["context", "attention weights"]),
prop("C24", "Configured models, losses and optimizers are the ones described",
 "Building a model from a configuration yields a network of the configured type, widths, orders and segments, and an unknown model type or optimizer is rejected with a ValueError. The classification step reports the mean cross entropy and the fraction of correct predictions, the regression step the mean squared error, under the stage's name. The optimizer covers all model parameters with the configured learning rate and scheduler.",
 ["configurations", "inputs"], "all model types, optimizers, schedulers, sizes, batches and labels",
 "No test imports the training modules.",
 [MO, NW], [("model selection", MO + " select_network"), ("steps and metrics", MO + " ClassificationMixin, RegressionMixin"), ("optimizer", MO + " PredictionNetMixin.configure_optimizers")],
 ["model", "returned loss", "logged metrics", "optimizer"]),
prop("C25", "Factories build what is named and refuse what they cannot",
 "Every documented layer-type name yields, from the same arguments, a layer of that representation with the documented number of weights per link and the requested widths, for dense, convolution and transposed-convolution factories alike. Unknown names and inconsistent arguments (width list of the wrong length, fewer than two channels, mismatched per-dimension lists, missing dimension count, fewer than one rotation, odd sinusoidal dimension) raise ValueError. Arguments meant for other layer types are tolerated.",
 ["configurations", "inputs"], "all type names (valid and arbitrary strings), argument sets and invalid combinations",
 "Tests construct a few types with one argument set; only the odd embedding dimension is tested for rejection.",
 [LA, NW, PL, PE], [("factories", LA + " high_order_fc_layers, high_order_convolution_layers, high_order_convolution_transpose_layers"), ("argument checks", NW + ", " + PL + " PiecewiseND, " + PE)],
 ["constructed layer", "raised exception"]),
prop("C26", "Segment lookup and local/global coordinates are consistent",
 "For every piecewise layer, the looked-up segment of a point is the one whose interval contains it (the outermost ones beyond the domain), global-to-local and local-to-global coordinate maps are inverse to each other, and map each segment's ends to the ends of the local domain. Evaluating a link equals evaluating that segment's polynomial at the local coordinate.",
 ["inputs", "configurations"], "all piecewise layers, segments, lengths, dimensions, periodicities and points",
 "No test calls these maps directly.",
 [PL], [("maps", PL + " which_segment, x_local, x_global (1d and nd)")],
 ["segment index", "coordinates"]),
]
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in ps))
print(len(ps))
